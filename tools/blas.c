/* The four BLAS routines that granne's feature "blas" uses. */
#include <math.h>
float sdot_(const int *n, const float *x, const int *incx, const float *y, const int *incy) {
    double s = 0;
    for (long i = 0; i < *n; i++)
        s += (double)x[i * *incx] * y[i * *incy];
    return (float)s;
}
void saxpy_(const int *n, const float *a, const float *x, const int *incx, float *y, const int *incy) {
    for (long i = 0; i < *n; i++)
        y[i * *incy] += *a * x[i * *incx];
}
float snrm2_(const int *n, const float *x, const int *incx) {
    double s = 0;
    for (long i = 0; i < *n; i++)
        s += (double)x[i * *incx] * x[i * *incx];
    return (float)sqrt(s);
}
void sscal_(const int *n, const float *a, float *x, const int *incx) {
    for (long i = 0; i < *n; i++)
        x[i * *incx] *= *a;
}
