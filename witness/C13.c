#include "wit.h"
#include "lib/list/hev-list.h"
#define N 7
int
main (int argc, char **argv)
{
    HevList l;
    HevListNode n[N], *p;
    int seq[N], cnt, i, j, k, r;
    wit_init (argc, argv);
    for (r = 0; r < 20000; r++) {
        memset (&l, 0, sizeof (l));
        memset (n, 0xee, sizeof (n));
        cnt = 0;
        for (i = 0; i < 12; i++) {
            CTX ("history %d step %d length %d", r, i, cnt);
            k = below (N);
            for (j = 0; j < cnt && seq[j] != k; j++)
                ;
            if (j < cnt) {
                hev_list_del (&l, &n[k]);
                memset (&n[k], 0xee, sizeof (n[k]));
                memmove (seq + j, seq + j + 1, (cnt - j - 1) * sizeof (int));
                cnt--;
            } else {
                hev_list_add_tail (&l, &n[k]);
                seq[cnt++] = k;
            }
            REQUIRE (hev_list_first (&l) == (cnt ? &n[seq[0]] : NULL));
            REQUIRE (hev_list_last (&l) == (cnt ? &n[seq[cnt - 1]] : NULL));
            for (j = 0; j < cnt; j++) {
                REQUIRE (hev_list_node_next (&n[seq[j]]) == (j + 1 < cnt ? &n[seq[j + 1]] : NULL));
                REQUIRE (hev_list_node_prev (&n[seq[j]]) == (j ? &n[seq[j - 1]] : NULL));
            }
        }
    }
    return wit_done ();
}
