/* Executes histories of list operations read from stdin and reports, after
   every operation, its result and everything the list contains. */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "array.h"
static int cleared[4096], ncleared;
static int ident(const xarray_data_t *d)
{
    if (!d) return -1;
    if (!d->nSize) return (int)(intptr_t)d->pData;
    const unsigned char *p = d->pData;
    for (size_t i = 1; i < d->nSize; i++) if (p[i] != p[0]) return -2;
    return p[0];
}
static void cb(xarray_data_t *d)
{
    cleared[ncleared++] = ident(d);
    if (d->nSize) free(d->pData);
}
static int by_size(const void *a, const void *b, void *c)
{
    const xarray_data_t *x = a, *y = b; (void)c;
    return (x->nSize > y->nSize) - (x->nSize < y->nSize);
}
static int by_key(const void *a, const void *b, void *c)
{
    const xarray_data_t *x = a, *y = b; int s = *(int*)c;
    return s * ((x->nKey > y->nKey) - (x->nKey < y->nKey));
}
static void *mk(int id, size_t size)
{
    static unsigned char buf[65536];
    if (!size) return (void*)(intptr_t)id;
    memset(buf, id, size);
    return buf;
}
static void *mkm(int id, size_t size)
{
    void *p;
    if (!size) return (void*)(intptr_t)id;
    p = malloc(size); memset(p, id, size);
    return p;
}
int main(void)
{
    static char line[256], op[32];
    xarray_t *a = NULL, own;
    int first = 1;
    while (fgets(line, sizeof line, stdin)) {
        long x[4] = {0}; long r = 0; const char *res = "";
        sscanf(line, "%31s %ld %ld %ld %ld", op, x, x+1, x+2, x+3);
        ncleared = 0;
        if (!strcmp(op, "new")) { /* size fixed callback own */
            if (x[3]) { XArray_Init(&own, x[0], x[1]); a = &own; } else a = XArray_New(x[0], x[1]);
            if (x[2]) a->clearCb = cb;
        }
        else if (!strcmp(op, "end")) {
            int own_ = a == &own;
            if (own_) XArray_Destroy(a); else XArray_Free(&a);
            printf("%s{\"r\":%d,\"l\":[],\"cap\":0,\"cleared\":[", first ? "[" : ",", own_ ? own.pData == NULL : a == NULL);
            for (int i = 0; i < ncleared; i++) printf("%s%d", i ? "," : "", cleared[i]);
            printf("]}]\n"); fflush(stdout);
            a = NULL; first = 1;
            continue;
        }
        else if (!strcmp(op, "addk")) r = XArray_AddDataKey(a, mk(x[0], x[1]), x[1], (uint32_t)x[2]);
        else if (!strcmp(op, "add")) r = XArray_AddData(a, mk(x[0], x[1]), x[1]);
        else if (!strcmp(op, "push")) {
            r = XArray_PushData(a, mkm(x[0], x[1]), x[1]);
        }
        else if (!strcmp(op, "item")) r = XArray_Add(a, XArray_NewData(mk(x[0], x[1]), x[1], (uint32_t)x[2]));
        else if (!strcmp(op, "set")) {
            xarray_data_t *o = XArray_SetData(a, x[0], mk(x[1], x[2]), x[2]);
            r = ident(o); XArray_FreeData(o);
        }
        else if (!strcmp(op, "setk")) {
            xarray_data_t *o = XArray_Set(a, x[0], XArray_NewData(mk(x[1], x[2]), x[2], (uint32_t)x[3]));
            r = ident(o); XArray_FreeData(o);
        }
        else if (!strcmp(op, "ins")) r = XArray_InsertData(a, x[0], mk(x[1], x[2]), x[2]) != NULL;
        else if (!strcmp(op, "insk")) {
            xarray_data_t *n = XArray_NewData(mk(x[1], x[2]), x[2], (uint32_t)x[3]);
            r = XArray_Insert(a, x[0], n) != NULL;
            if (!r) XArray_FreeData(n);
        }
        else if (!strcmp(op, "rem")) { xarray_data_t *o = XArray_Remove(a, x[0]); r = ident(o); XArray_FreeData(o); }
        else if (!strcmp(op, "del")) XArray_Delete(a, x[0]);
        else if (!strcmp(op, "swap")) XArray_Swap(a, x[0], x[1]);
        else if (!strcmp(op, "clear")) XArray_Clear(a);
        else if (!strcmp(op, "sort")) {
            int s = x[0] == 3 || x[0] == 5 ? -1 : 1;
            switch (x[0]) {
            case 0: XArray_SortBy(a, XARRAY_SORTBY_KEY); break;
            case 1: XArray_SortBy(a, XARRAY_SORTBY_SIZE); break;
            case 2: case 3: XArray_Sort(a, by_key, &s); break;
            case 4: case 5: XArray_BubbleSort(a, by_key, &s); break;
            case 6: XArray_BubbleSort(a, by_size, &s); break;
            case 7: XArray_Sort(a, by_size, &s); break;
            }
        }
        else if (!strcmp(op, "find")) {
            uint32_t k = (uint32_t)x[1];
            r = x[0] == 0 ? XArray_LinearSearch(a, k) : x[0] == 1 ? XArray_SentinelSearch(a, k) : x[0] == 2 ? XArray_DoubleSearch(a, k) : XArray_BinarySearch(a, k);
        }
        else return 3;
        printf("%s{\"r\":%ld,\"l\":[", first ? "[" : ",", r); first = 0;
        size_t n = XArray_Used(a), i;
        for (i = 0; i < n; i++) {
            xarray_data_t *d = XArray_Get(a, i);
            int ok = d && XArray_Contains(a, i) == 1 && XArray_GetData(a, i) == d->pData && XArray_GetDataOr(a, i, &own) == d->pData
                     && XArray_GetSize(a, i) == d->nSize && XArray_GetKey(a, i) == d->nKey;
            printf("%s{\"id\":%d,\"size\":%ld,\"key\":%ld}", i ? "," : "", ok ? ident(d) : -3, d ? (long)d->nSize : -1, d ? (long)d->nKey >> 1 : -1);
        }
        int beyond = 0; /* nothing is beyond the end */
        for (i = n; i < n + 40; i++)
            if (XArray_Get(a, i) || XArray_Contains(a, i) || XArray_GetData(a, i) || XArray_GetDataOr(a, i, &first) != &first || XArray_GetSize(a, i) || XArray_GetKey(a, i)) beyond++;
        printf("],\"cap\":%ld,\"beyond\":%d,\"cleared\":[", (long)XArray_Size(a), beyond);
        for (int j = 0; j < ncleared; j++) printf("%s%d", j ? "," : "", cleared[j]);
        printf("]}");
    }
    return 0;
}
