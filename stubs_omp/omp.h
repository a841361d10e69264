// Analysis stand-in: clang's omp.h is not installed.
#ifndef VP_OMP_STUB
#define VP_OMP_STUB
extern "C" { int omp_get_thread_num(); int omp_get_num_threads(); int omp_get_max_threads(); void omp_set_num_threads( int ); double omp_get_wtime(); int omp_in_parallel(); }
#endif
