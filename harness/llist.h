// Linked list driver state shared by the sequential and the threaded check.
#pragma once
#include "mc.h"
#include <citrusleaf/cf_ll.h>
#include <stdlib.h>
#include <string.h>

typedef struct { cf_ll_element link; int id; int destroyed; } node;
static inline node* node_of(cf_ll_element* e) { return (node*)e; }
