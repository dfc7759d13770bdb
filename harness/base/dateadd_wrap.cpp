#define EXECUTE_INCLUDE
#include "QueryEngine/DateAdd.cpp"
