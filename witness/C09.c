#include "wchan.h"
int
main (int argc, char **argv)
{
    return chan_main (argc, argv, 9);
}
