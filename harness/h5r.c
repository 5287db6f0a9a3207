/* h5r OUT FILE...: independent reader of HDF5 snapshots.
   OUT.json: one line per file with attributes and data sets, OUT.bin: the values */
#include <hdf5.h>
#include <stdio.h>
#include <stdlib.h>
static FILE *J, *B;
static long off = 0;
static int na, nd;
static herr_t
attr(hid_t loc, const char * name, const H5A_info_t * i, void * d)
{
  hid_t a = H5Aopen(loc, name, H5P_DEFAULT), t = H5Aget_type(a), s = H5Aget_space(a);
  fprintf(J, "%s\"%s\":", na++ ? "," : "", name);
  if (H5Tget_class(t) == H5T_INTEGER && H5Sget_simple_extent_npoints(s) == 1)
  {
    long long v;
    H5Aread(a, H5T_NATIVE_LLONG, &v);
    fprintf(J, "%lld", v);
  }
  else if (H5Tget_class(t) == H5T_FLOAT && H5Sget_simple_extent_npoints(s) == 1)
  {
    double v;
    H5Aread(a, H5T_NATIVE_DOUBLE, &v);
    if (v != v || v - v != 0)
      fprintf(J, "\"%f\"", v);
    else
      fprintf(J, "%.17g", v);
  }
  else
    fprintf(J, "\"other\"");
  H5Sclose(s);
  H5Tclose(t);
  H5Aclose(a);
  return 0;
}
static herr_t
link_(hid_t g, const char * name, const H5L_info_t * li, void * dd)
{
  hid_t d = H5Oopen(g, name, H5P_DEFAULT);
  if (H5Iget_type(d) == H5I_DATASET)
  {
    hid_t t = H5Dget_type(d), s = H5Dget_space(d);
    int rank = H5Sget_simple_extent_ndims(s);
    hsize_t dims[8];
    H5Sget_simple_extent_dims(s, dims, 0);
    long n = H5Sget_simple_extent_npoints(s);
    fprintf(J, "%s\"%s\":{\"cls\":\"%s\",\"size\":%zu,\"off\":%ld,\"dims\":[", nd++ ? "," : "", name,
            H5Tget_class(t) == H5T_FLOAT ? "float" : "other", H5Tget_size(t), off);
    for (int k = 0; k < rank; ++k)
      fprintf(J, "%s%lld", k ? "," : "", (long long)dims[k]);
    fprintf(J, "]}");
    double * v = malloc(sizeof(double) * (n + 1));
    if (H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v) < 0)
      for (long k = 0; k < n; ++k)
        v[k] = 0.0 / 0.0;
    fwrite(v, sizeof(double), n, B);
    off += n;
    free(v);
    H5Sclose(s);
    H5Tclose(t);
  }
  H5Oclose(d);
  return 0;
}
int
main(int argc, char ** argv)
{
  char p[4096];
  H5Eset_auto2(H5E_DEFAULT, 0, 0);
  snprintf(p, sizeof p, "%s.json", argv[1]);
  J = fopen(p, "w");
  snprintf(p, sizeof p, "%s.bin", argv[1]);
  B = fopen(p, "w");
  for (int i = 2; i < argc; ++i)
  {
    hid_t f = H5Fopen(argv[i], H5F_ACC_RDONLY, H5P_DEFAULT);
    fprintf(J, "{\"file\":\"%s\",\"ok\":%d,\"attr\":{", argv[i], f >= 0);
    na = nd = 0;
    if (f >= 0)
      H5Aiterate2(f, H5_INDEX_NAME, H5_ITER_NATIVE, 0, attr, 0);
    fprintf(J, "},\"data\":{");
    if (f >= 0)
      H5Literate(f, H5_INDEX_NAME, H5_ITER_NATIVE, 0, link_, 0);
    fprintf(J, "}}\n");
    if (f >= 0)
      H5Fclose(f);
  }
  fclose(J);
  fclose(B);
  return 0;
}
