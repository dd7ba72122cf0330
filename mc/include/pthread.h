#include_next <pthread.h>
#ifndef MC_PTHREAD_H
#define MC_PTHREAD_H
#ifdef __cplusplus
extern "C" {
#endif
struct mc_cleanup_ { void (*fn)(void *); void * arg; struct mc_cleanup_ * next; };
void mc_cleanup_push_(struct mc_cleanup_ * c);
void mc_cleanup_pop_(struct mc_cleanup_ * c, int execute);
#ifdef __cplusplus
}
#endif
#endif
#undef pthread_cleanup_push
#undef pthread_cleanup_pop
#define pthread_cleanup_push(routine, argument) \
	do { struct mc_cleanup_ mc_cl__ = { (routine), (argument), 0 }; \
		mc_cleanup_push_(&mc_cl__);
#define pthread_cleanup_pop(execute) \
		mc_cleanup_pop_(&mc_cl__, (execute)); } while (0)
