#pragma once
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cassert>
#include <vector>
#include <string>
#include <cstring>
static int demo_bad=0;
#define CHECK(c) do{ if(!(c)){ printf("BROKEN: %s (line %d)\n",#c,__LINE__); demo_bad=1; } }while(0)
#define NEAR(a,b) CHECK(std::fabs((a)-(b))<=1e-8*(1+std::fabs(b)))
struct DemoMPI{ DemoMPI(int&c,char**&v){MPI_Init(&c,&v);} ~DemoMPI(){MPI_Finalize();} };
