// Instrumented stand-ins for the libvolk kernels the modem uses.  They are ordinary C compiled with the
// sanitizer of the build, so an out-of-range access inside a kernel is seen (libvolk itself is not instrumented).
// Symbols defined here take precedence over libvolk, which is still linked for anything not listed.
#define _GNU_SOURCE
#include <volk/volk.h>
#include <math.h>
#include <stdlib.h>
#include <errno.h>
#include <string.h>

static float dot(const float *a, const float *b, unsigned n) {
    float acc = 0.0f;
    for (unsigned i = 0; i < n; i++) acc += a[i] * b[i];
    return acc;
}
static void k_dot_f(float *r, const float *a, const float *b, unsigned int n) { *r = dot(a, b, n); }
static void k_dot_c(lv_32fc_t *r, const lv_32fc_t *in, const float *taps, unsigned int n) {
    float re = 0.0f, im = 0.0f;
    const float *p = (const float *) in;
    for (unsigned i = 0; i < n; i++) { re += p[2 * i] * taps[i]; im += p[2 * i + 1] * taps[i]; }
    ((float *) r)[0] = re; ((float *) r)[1] = im;
}
static void k_mulconj(lv_32fc_t *c, const lv_32fc_t *a, const lv_32fc_t *b, unsigned int n) {
    const float *x = (const float *) a, *y = (const float *) b;
    float *z = (float *) c;
    for (unsigned i = 0; i < n; i++) {
        float xr = x[2 * i], xi = x[2 * i + 1], yr = y[2 * i], yi = y[2 * i + 1];
        z[2 * i] = xr * yr + xi * yi; z[2 * i + 1] = xi * yr - xr * yi;
    }
}
static void k_mul(lv_32fc_t *c, const lv_32fc_t *a, const lv_32fc_t *b, unsigned int n) {
    const float *x = (const float *) a, *y = (const float *) b;
    float *z = (float *) c;
    for (unsigned i = 0; i < n; i++) {
        float xr = x[2 * i], xi = x[2 * i + 1], yr = y[2 * i], yi = y[2 * i + 1];
        z[2 * i] = xr * yr - xi * yi; z[2 * i + 1] = xi * yr + xr * yi;
    }
}
static void k_16i_32f(float *o, const int16_t *in, const float s, unsigned int n) {
    for (unsigned i = 0; i < n; i++) o[i] = (float) in[i] / s;
}
static void k_32f_16i(int16_t *o, const float *in, const float s, unsigned int n) {
    for (unsigned i = 0; i < n; i++) {
        float r = in[i] * s;
        if (r != r) r = 0;
        if (r > 32767.0f) r = 32767.0f; else if (r < -32768.0f) r = -32768.0f;
        o[i] = (int16_t) rintf(r);
    }
}
static void k_32f_8i(int8_t *o, const float *in, const float s, unsigned int n) {
    for (unsigned i = 0; i < n; i++) {
        float r = in[i] * s;
        if (r != r) r = 0;
        if (r > 127.0f) r = 127.0f; else if (r < -128.0f) r = -128.0f;
        o[i] = (int8_t) rintf(r);
    }
}
p_32f_x2_dot_prod_32f volk_32f_x2_dot_prod_32f = k_dot_f;
p_32f_x2_dot_prod_32f volk_32f_x2_dot_prod_32f_a = k_dot_f;
p_32f_x2_dot_prod_32f volk_32f_x2_dot_prod_32f_u = k_dot_f;
p_32fc_32f_dot_prod_32fc volk_32fc_32f_dot_prod_32fc = k_dot_c;
p_32fc_32f_dot_prod_32fc volk_32fc_32f_dot_prod_32fc_a = k_dot_c;
p_32fc_32f_dot_prod_32fc volk_32fc_32f_dot_prod_32fc_u = k_dot_c;
p_32fc_x2_multiply_32fc volk_32fc_x2_multiply_32fc = k_mul;
p_32fc_x2_multiply_32fc volk_32fc_x2_multiply_32fc_a = k_mul;
p_32fc_x2_multiply_32fc volk_32fc_x2_multiply_32fc_u = k_mul;
p_32fc_x2_multiply_conjugate_32fc volk_32fc_x2_multiply_conjugate_32fc = k_mulconj;
p_32fc_x2_multiply_conjugate_32fc volk_32fc_x2_multiply_conjugate_32fc_a = k_mulconj;
p_32fc_x2_multiply_conjugate_32fc volk_32fc_x2_multiply_conjugate_32fc_u = k_mulconj;
p_16i_s32f_convert_32f volk_16i_s32f_convert_32f = k_16i_32f;
p_16i_s32f_convert_32f volk_16i_s32f_convert_32f_a = k_16i_32f;
p_16i_s32f_convert_32f volk_16i_s32f_convert_32f_u = k_16i_32f;
p_32f_s32f_convert_16i volk_32f_s32f_convert_16i = k_32f_16i;
p_32f_s32f_convert_16i volk_32f_s32f_convert_16i_a = k_32f_16i;
p_32f_s32f_convert_16i volk_32f_s32f_convert_16i_u = k_32f_16i;
p_32f_s32f_convert_8i volk_32f_s32f_convert_8i = k_32f_8i;
p_32f_s32f_convert_8i volk_32f_s32f_convert_8i_a = k_32f_8i;
p_32f_s32f_convert_8i volk_32f_s32f_convert_8i_u = k_32f_8i;

#ifndef VOLK_SHIM_ALIGN
#define VOLK_SHIM_ALIGN 32
#endif
size_t volk_get_alignment(void) { return VOLK_SHIM_ALIGN; }
// exact size (libvolk rounds up), so that the sanitizer's red zone starts right behind the buffer
void *volk_malloc(size_t size, size_t alignment) {
    if (alignment < sizeof(void *)) alignment = sizeof(void *);
    if (alignment & (alignment - 1)) return NULL;
    void *p = NULL;
    if (posix_memalign(&p, alignment, size) != 0) return NULL;
    return p;
}
void volk_free(void *p) { free(p); }
