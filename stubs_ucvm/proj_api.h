/* interface of PROJ.4 the code uses: all of it unknown externals to the analyses */
#ifndef VP_PROJ_API_H
#define VP_PROJ_API_H
#define RAD_TO_DEG 57.295779513082321
#define DEG_TO_RAD .017453292519943296
extern "C" {
typedef void *projPJ;
projPJ pj_init_plus( const char * );
int pj_transform( projPJ src, projPJ dst, long point_count, int point_offset, double *x, double *y, double *z );
void pj_free( projPJ );
}
#endif
