/* Stand-in for libputils' <putils/properties.h>: the store is in the harness. */
#ifndef VP_PUTILS_PROPERTIES_H
#define VP_PUTILS_PROPERTIES_H
#define SYS_PROP_KEY_MAX 32
#define SYS_PROP_VALUE_MAX 92
#ifdef __cplusplus
extern "C" {
#endif
int sys_prop_get(const char *key, char *value, const char *default_value);
int sys_prop_set(const char *key, const char *value);
#ifdef __cplusplus
}
#endif
#endif
