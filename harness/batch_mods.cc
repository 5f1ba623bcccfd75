// The loadable modules, linked into a program of /repo; master.ini comes from the environment
#include "service.h"
namespace { struct Init { Init() { if (const char* f = getenv("SVC_INI")) svc::ini = f; } } init; }
