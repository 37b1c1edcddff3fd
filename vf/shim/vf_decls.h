#pragma once
// Declarations (no code) of the system interfaces the library calls, so that the verifier reads a small
// AST.  The library's own sources and headers are read unchanged.
typedef unsigned long size_t; typedef long ssize_t; typedef long time_t;
typedef signed char int8_t; typedef unsigned char uint8_t; typedef short int16_t; typedef unsigned short uint16_t;
typedef int int32_t; typedef unsigned int uint32_t; typedef long int64_t; typedef unsigned long uint64_t;
typedef long intptr_t; typedef unsigned long uintptr_t; typedef long ptrdiff_t;
#define NULL __null
struct timespec { time_t tv_sec; long tv_nsec; };
struct timeval { time_t tv_sec; long tv_usec; };
typedef struct _VF_FILE FILE;
#define CLOCK_REALTIME 0
#define CLOCK_MONOTONIC 1
#define RAND_MAX 2147483647
#define INT_MAX 2147483647
#define INT_MIN (-2147483647-1)
#define EXIT_FAILURE 1
#define EXIT_SUCCESS 0
extern FILE* stderr; extern FILE* stdout; extern FILE* stdin;
extern "C" {
int printf(const char*, ...); int fprintf(FILE*, const char*, ...); int sprintf(char*, const char*, ...); int snprintf(char*, size_t, const char*, ...);
char* fgets(char*, int, FILE*); FILE* popen(const char*, const char*); int pclose(FILE*); FILE* fopen(const char*, const char*); int fclose(FILE*);
int puts(const char*); int fflush(FILE*); int sscanf(const char*, const char*, ...);
void* malloc(size_t); void* calloc(size_t, size_t); void* realloc(void*, size_t); void free(void*); int posix_memalign(void**, size_t, size_t); void* aligned_alloc(size_t, size_t);
void exit(int); void abort(); int atoi(const char*); double atof(const char*); int rand(); void srand(unsigned); int abs(int); long labs(long); char* getenv(const char*);
void* memset(void*, int, size_t); void* memcpy(void*, const void*, size_t); void* memmove(void*, const void*, size_t); size_t strlen(const char*); int strcmp(const char*, const char*); char* strcpy(char*, const char*);
double sqrt(double); double ceil(double); double floor(double); double fabs(double); double log(double); double exp(double); double pow(double, double); double round(double); double sin(double); double cos(double); double fmod(double, double); double fmin(double,double); double fmax(double,double);
float roundf(float); float sqrtf(float); float ceilf(float); float floorf(float); float fabsf(float); float fminf(float,float); float fmaxf(float,float); long lround(double);
int clock_gettime(int, struct timespec*); int gettimeofday(struct timeval*, void*); time_t time(time_t*); unsigned sleep(unsigned); int usleep(unsigned);
void omp_set_num_threads(int); int omp_get_num_threads(); int omp_get_thread_num(); int omp_get_max_threads(); double omp_get_wtime(); int omp_get_num_procs();
}
inline float abs(float); inline double abs(double);
typedef float __m256 __attribute__((__vector_size__(32)));
typedef float __m128 __attribute__((__vector_size__(16)));
extern "C" {
__m256 _mm256_loadu_ps(const float*); __m256 _mm256_load_ps(const float*); void _mm256_storeu_ps(float*, __m256); void _mm256_store_ps(float*, __m256);
__m256 _mm256_broadcast_ss(const float*); __m256 _mm256_set1_ps(float); __m256 _mm256_setzero_ps(); __m256 _mm256_fmadd_ps(__m256, __m256, __m256); __m256 _mm256_fnmadd_ps(__m256, __m256, __m256); __m256 _mm256_fmsub_ps(__m256, __m256, __m256);
__m256 _mm256_add_ps(__m256, __m256); __m256 _mm256_mul_ps(__m256, __m256); __m256 _mm256_sub_ps(__m256, __m256);
__m256 _mm256_unpacklo_ps(__m256, __m256); __m256 _mm256_unpackhi_ps(__m256, __m256); __m256 _mm256_shuffle_ps(__m256, __m256, int); __m256 _mm256_permute2f128_ps(__m256, __m256, int);
}
