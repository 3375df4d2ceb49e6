#include <kognac/multidisklz4writer.h>
