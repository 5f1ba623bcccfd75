// Forced include of harnesses that run the whole decoder: the dynamic modules and master.ini come from the harness
#ifdef __cplusplus
#include <dlfcn.h>
extern "C" { void* svc_dlopen(const char*, int); void* svc_dlsym(void*, const char*); int svc_dlclose(void*); char* svc_dlerror(); const char* svc_master_ini(); }
static inline __attribute__((unused)) void* svc_real_dlsym(void* h, const char* n) { return dlsym(h, n); }
#define SVC_REAL_DLSYM svc_real_dlsym
#define dlopen svc_dlopen
#define dlsym svc_dlsym
#define dlclose svc_dlclose
#define dlerror svc_dlerror
#undef THOT_MASTER_INI_PATH
#define THOT_MASTER_INI_PATH svc_master_ini()
#endif
