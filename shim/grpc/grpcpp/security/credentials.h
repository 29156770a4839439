#include <grpcpp/grpcpp.h>
