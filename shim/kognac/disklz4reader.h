#include <kognac/multidisklz4reader.h>
