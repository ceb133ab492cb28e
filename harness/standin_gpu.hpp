// Included before everything in the builds that exercise EKAT's code for devices: the threads of the host stand in for the
// device, so EKAT's own device specialisations (slots with locks, warp-sized teams, replacements of std functions) really run.
#ifndef STANDIN_GPU_HPP
#define STANDIN_GPU_HPP
#include <Kokkos_Core.hpp>
#include <Kokkos_Random.hpp>
#include <chrono>
#undef KOKKOS_ENABLE_OPENMP   // from here on only EKAT's headers look at it
#define EKAT_ENABLE_GPU
namespace Kokkos { using Serial = OpenMP; }
#ifdef STANDIN_SHAPES   // a device that only records the shapes it is asked for, of any size
struct StandinDev { using execution_space=StandinDev; using memory_space=Kokkos::HostSpace; using device_type=Kokkos::Device<StandinDev,memory_space>; using size_type=int; using array_layout=Kokkos::LayoutRight; using scratch_memory_space=Kokkos::OpenMP::scratch_memory_space; static int concurrency () { return 1<<20; } };
template<> class Kokkos::TeamPolicy<StandinDev> { int l, t; public: using member_type=int; TeamPolicy (int l_, int t_) : l(l_), t(t_) {} int league_size () const { return l; } int team_size () const { return t; } };
namespace ekat { using EkatGpuSpace = StandinDev; }
#else
namespace ekat { using EkatGpuSpace = Kokkos::OpenMP; }
#endif
#endif
