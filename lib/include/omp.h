/* declarations only: lets clang parse the OpenMP configuration without libomp */
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_thread_num(void);
void omp_set_num_threads(int);
double omp_get_wtime(void);
