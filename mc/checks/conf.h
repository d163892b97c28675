#ifndef MC_CONF_H
#define MC_CONF_H
const char *mc_workdir(void);
#endif
