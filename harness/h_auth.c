#include "../contracts/u_auth.c"
