/* env_int.h - between env.c and sched.c */
#ifndef ENV_INT_H
#define ENV_INT_H
void sched_init(void);
void sched_reset_locks(int proc);
void sched_wait(const char *what, int (*ready)(void *), void *arg);
void env_statics(void);
int env_is_static(const void *p);
void env_enter(void);
void env_leave(void);
#endif
