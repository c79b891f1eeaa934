// C13 for the meta records: ordered by id, then by descending reference
#define BY_REF
#include "C13.cpp"
