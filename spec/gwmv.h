/* Vocabulary of the claims in this directory.
 *
 * The files here are never compiled into a program nor executed: the analyser parses them together with the
 * library and computes, for every claim, the symbolic normal form of both sides.  A claim is a function whose
 * name starts with "claim_"; it obtains unconstrained inputs from the primitives below, calls the library
 * through its public interface and states with same() that what comes out equals the reference expression. */
#pragma once
#include <armadillo>
#include <vector>
#include <cmath>
namespace gwmv
{
    // unconstrained inputs
    arma::mat mat_(const char* name, arma::uword r, arma::uword c);
    arma::vec vec_(const char* name, arma::uword n);
    arma::rowvec rowvec_(const char* name, arma::uword n);
    arma::uvec uvec_(const char* name, arma::uword n);
    arma::umat umat_(const char* name, arma::uword r, arma::uword c);
    arma::cube cube_(const char* name, arma::uword r, arma::uword c, arma::uword s);
    std::vector<double> vecd_(const char* name, std::size_t n);
    std::size_t int_(const char* name);
    double real_(const char* name);
    // uninterpreted function
    double fn_(const char* name, double x);
    double fn_(const char* name, double x, double y);
    template<class... A> arma::mat matfn_(const char* name, arma::uword r, arma::uword c, const A&... args);
    bool pred_(const char* name, double x);
    bool bool_(const char* name);
    template<class T> T obj_(const char* name);
    template<class T> T* ptr_(const char* name);
    template<class T> std::vector<T> objs_(const char* name, std::size_t n);
    // statements
    template<class A, class B> void same(const char* label, const A& x, const B& y);
    template<class A, class B> void same_shape(const char* label, const A& x, const B& y);
    // whenever something adverse happens (singular system, cancellation, non-finite value) x equals y
    template<class A, class B> void fails_as(const char* label, const A& x, const B& y);
    template<class F> void throws(const char* label, F f) {}
    // f ends with an exception whenever some system of equations it has to solve is singular
    template<class F> void reports(const char* label, F f) {}
    // f starts a team of threads / runs on the calling thread only
    template<class F> void threaded(const char* label, F f, bool expected) {}
    template<class F> void quiet(const char* label, F f) {}
}
