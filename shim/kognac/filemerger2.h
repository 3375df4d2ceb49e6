#pragma once
#include <kognac/compressor.h>
