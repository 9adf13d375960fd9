#pragma once
#include <sofa/stub.h>
