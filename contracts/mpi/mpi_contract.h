// Runs f once per rank, each rank a process of its own, under one schedule of the assumed MPI contract.
#ifndef HPV_MPI_CONTRACT_H
#define HPV_MPI_CONTRACT_H
#include <functional>
#include <string>
#include <vector>
struct MpiSchedule {
    bool late = false;   // sends happen as late as MPI allows (next blocking call)
    int order = 0;       // any source: 0 lowest rank first, 1 highest rank first
    int slow = -1;       // this rank is late at every call
};
// what each rank returned; empty text and a reason in 'failed' when a rank did not finish
std::vector<std::string> mpiRun(std::size_t np, const MpiSchedule &s, std::function<std::string(std::size_t)> f, std::string &failed);
#endif
