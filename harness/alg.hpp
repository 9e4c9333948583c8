// access to the filter IPM algorithm object around a symbolic problem
#ifndef ALG_HPP
#define ALG_HPP
#include "fix.hpp"
#include "hiopAlgFilterIPM.hpp"
#include "hiopPDPerturbation.hpp"
#include "hiopFactAcceptor.hpp"
struct Alg : hiopAlgFilterIPMQuasiNewton { Alg(hiopNlpDenseConstraints* n) : hiopAlgFilterIPMQuasiNewton(n) {} };
#endif
