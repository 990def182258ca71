/* Makes clang emit the inline functions of the repository's own headers; the text
 * that is verified is the headers'.  Nothing here is specified or proved. */
#include "lib/list/hev-list.h"
#include "lib/rbtree/hev-rbtree-cached.h"
#include "lib/object/hev-object.h"

void *dv_probe[] = {
    hev_list_node_prev, hev_list_node_next, hev_list_first, hev_list_last,
    hev_rbtree_node_empty, hev_rbtree_node_parent, hev_rbtree_node_link, hev_rbtree_cached_first,
    hev_object_ref, hev_object_unref,
};

#include <stddef.h>
#include <errno.h>
#include <sys/socket.h>
#include "kern/core/hev-task-system-private.h"
#include "lib/io/basic/hev-task-io.h"
#include "lib/cio/base/hev-task-cio.h"

#define C(n) const long dv_const_##n = n;
C (HEV_TASK_YIELD)
C (HEV_TASK_WAITIO)
C (HEV_TASK_YIELD_COUNT)
C (HEV_TASK_STOPPED)
C (HEV_TASK_RUNNING)
C (HEV_TASK_WAITING)
C (HEV_TASK_RUN_SCHEDULER)
C (HEV_TASK_SCHED_REMOVE)
C (HEV_TASK_PRIORITY_MIN)
C (HEV_TASK_PRIORITY_MAX)
C (HEV_TASK_PRIORITY_DEFAULT)
C (HEV_TASK_CIO_CTRL_FLUSH)
C (HEV_TASK_CIO_CTRL_GET_FD)
