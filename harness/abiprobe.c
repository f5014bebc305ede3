/* The C side of the call probe: what a call looked like at its entry, and
   calls made from a description of the registers and the stack. */
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>

extern struct { uint64_t rax, gp[6], sse[8], rsp, flags; } vp_rec __attribute__((visibility("hidden")));
extern struct { uint64_t r[4]; unsigned char st0[16]; int x87; } vp_ret __attribute__((visibility("hidden")));
extern struct { uint64_t rax, gp[6], sse[8]; unsigned char st[1024], pad[8]; int x87; } vp_in __attribute__((visibility("hidden")));
extern struct { uint64_t r[4]; unsigned char st0[16], pad[32]; uint64_t rsp0, rsp1, flags, saved[6]; unsigned char env[28]; } vp_out __attribute__((visibility("hidden")));

static unsigned char stack[1024], mem[256], hidden[512] __attribute__((aligned(64)));
static int nmem, calls;

static void hex(const void *p, size_t n) { const unsigned char *c = p; while (n--) printf("%02x", *c++); }
void vp_dump(const char *k, int n, const void *p, long len) { printf("%d %s ", n, k); hex(p, len); printf("\n"); }

/* called by the probe */
void vp_seen(void) __attribute__((visibility("hidden")));
void vp_seen(void)
{
    calls++;
    memcpy(stack, (char *)vp_rec.rsp + 8, sizeof stack);
    if (nmem >= 0) {
        memcpy((void *)vp_rec.gp[0], mem, nmem);
        vp_ret.r[0] = vp_rec.gp[0];
    }
}
/* what the probe is to return: 4 registers, x87, or n bytes through memory */
void vp_result(const void *regs, const void *st0, const void *m, int n)
{
    memcpy(vp_ret.r, regs, 32);
    vp_ret.x87 = st0 != 0;
    if (st0)
        memcpy(vp_ret.st0, st0, 10);
    nmem = n;
    if (n > 0)
        memcpy(mem, m, n);
    calls = 0;
    memset(&vp_rec, 0xee, sizeof vp_rec);
}
/* report the last call */
void vp_show(int k, int nst)
{
    printf("%d calls %d\n", k, calls);
    printf("%d entry %d %d\n", k, (int)((vp_rec.rsp + 8) & 15), (int)(vp_rec.flags >> 10 & 1));
    printf("%d al %d\n", k, (int)(vp_rec.rax & 255));
    vp_dump("gp", k, vp_rec.gp, 48);
    vp_dump("sse", k, vp_rec.sse, 64);
    vp_dump("st", k, stack, nst);
}
/* registers and stack of the next call; mem: the result is in memory */
void vp_enter(int al, const void *gp, const void *sse, const void *st, int nst, int memory, int x87)
{
    vp_in.rax = 0x5a5a5a00 | al;
    memcpy(vp_in.gp, gp, 48);
    memcpy(vp_in.sse, sse, 64);
    memset(vp_in.st, 0xcd, sizeof vp_in.st);
    memcpy(vp_in.st, st, nst);
    if (memory)
        vp_in.gp[0] = (uint64_t)hidden;
    vp_in.x87 = x87;
    memset(hidden, 0xab, sizeof hidden);
    memset(&vp_out, 0xee, sizeof vp_out);
}
void vp_leave(int k, int memory)
{
    int i, ok = 1;
    for (i = 0; i < 6; i++)
        ok &= vp_out.saved[i] == 0x11111111ull * (i + 1);
    printf("%d exit %d %d %d %d\n", k, ok, vp_out.rsp0 == vp_out.rsp1, (int)(vp_out.flags >> 10 & 1), vp_out.env[8] == 255 && vp_out.env[9] == 255);
    vp_dump("out", k, vp_out.r, 32);
    vp_dump("st0", k, vp_out.st0, 10);
    printf("%d mem %d\n", k, vp_out.r[0] == (uint64_t)hidden);
    vp_dump("hid", k, hidden, memory ? memory + 8 : 0);
}
/* arguments read from a list made by the caller: i l d x(long double) p */
void vp_list(int k, const char *kinds, va_list ap)
{
    int n = 0;
    for (; *kinds; kinds++, n++) {
        char name[16];
        int i; long l; double d; long double x; void *p;
        sprintf(name, "l%d", n);
        switch (*kinds) {
        case 'i': i = va_arg(ap, int); vp_dump(name, k, &i, 4); break;
        case 'l': l = va_arg(ap, long); vp_dump(name, k, &l, 8); break;
        case 'd': d = va_arg(ap, double); vp_dump(name, k, &d, 8); break;
        case 'x': x = va_arg(ap, long double); vp_dump(name, k, &x, 10); break;
        default: p = va_arg(ap, void *); vp_dump(name, k, &p, 8); break;
        }
    }
}
