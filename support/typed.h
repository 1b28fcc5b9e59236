/* Included after mpp_io.h when a unit is compiled for analysis: marks every buffer given to a data operation
   with the element type its expression has in the type-checked program. */
#define FVC_MARK(t) void *fvc_typed_##t(const void *);
FVC_MARK(double) FVC_MARK(float) FVC_MARK(int) FVC_MARK(short) FVC_MARK(char) FVC_MARK(void) FVC_MARK(long) FVC_MARK(other)
#define FVC_T(d) _Generic((d), \
  double *: fvc_typed_double, const double *: fvc_typed_double, float *: fvc_typed_float, const float *: fvc_typed_float, \
  int *: fvc_typed_int, const int *: fvc_typed_int, unsigned *: fvc_typed_int, const unsigned *: fvc_typed_int, \
  short *: fvc_typed_short, const short *: fvc_typed_short, unsigned short *: fvc_typed_short, \
  char *: fvc_typed_char, const char *: fvc_typed_char, unsigned char *: fvc_typed_char, signed char *: fvc_typed_char, \
  long *: fvc_typed_long, const long *: fvc_typed_long, unsigned long *: fvc_typed_long, const unsigned long *: fvc_typed_long, \
  long long *: fvc_typed_long, unsigned long long *: fvc_typed_long, \
  void *: fvc_typed_void, const void *: fvc_typed_void, default: fvc_typed_other)(d)
#define mpp_put_var_value(f, v, d) mpp_put_var_value(f, v, FVC_T(d))
#define mpp_get_var_value(f, v, d) mpp_get_var_value(f, v, FVC_T(d))
#define mpp_put_var_value_block(f, v, s, n, d) mpp_put_var_value_block(f, v, s, n, FVC_T(d))
#define mpp_get_var_value_block(f, v, s, n, d) mpp_get_var_value_block(f, v, s, n, FVC_T(d))
