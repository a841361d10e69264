/* interface of UCVM the code uses: all of it unknown externals to the analyses */
#ifndef VP_UCVM_H
#define VP_UCVM_H
typedef enum { UCVM_COORD_GEO_DEPTH = 0, UCVM_COORD_GEO_ELEV } ucvm_ctype_t;
typedef enum { UCVM_PARAM_QUERY_MODE = 0, UCVM_PARAM_MODEL_CONF } ucvm_param_t;
#define UCVM_CODE_SUCCESS 0
#define UCVM_CODE_ERROR -1
typedef struct ucvm_point_t { double coord[3]; } ucvm_point_t;
typedef struct ucvm_prop_t { int source; double vp; double vs; double rho; } ucvm_prop_t;
typedef struct ucvm_data_t { double surf; double vs30; double depth; int domain; double shift_cr; double shift_gtl; ucvm_prop_t crust; ucvm_prop_t gtl; ucvm_prop_t cmb; } ucvm_data_t;
int ucvm_init( const char *cf );
int ucvm_finalize();
int ucvm_add_model( const char *label );
int ucvm_add_model_list( const char *list );
int ucvm_setparam( ucvm_param_t param, ... );
int ucvm_query( int n, ucvm_point_t *pnt, ucvm_data_t *data );
#endif
