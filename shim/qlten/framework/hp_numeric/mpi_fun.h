// Stand-in for TensorToolkit's MPI helpers.
#ifndef SHIM_QLTEN_MPI_FUN_H
#define SHIM_QLTEN_MPI_FUN_H
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <limits>
#include <string>
#include <vector>
#include <mpi.h>
namespace qlten {
using QLTEN_Double = double; using QLTEN_Complex = std::complex<double>; using QLTEN_Float = float; using QLTEN_ComplexFloat = std::complex<float>;
template<class T> struct RealTypeTrait { using type = T; }; template<class T> struct RealTypeTrait<std::complex<T>> { using type = T; };
namespace hp_numeric {
const int kMPIMasterRank = 0;
template<class T> inline MPI_Datatype GetMPIDataType();
template<> inline MPI_Datatype GetMPIDataType<double>() { return MPI_DOUBLE; }
template<> inline MPI_Datatype GetMPIDataType<float>() { return MPI_FLOAT; }
template<> inline MPI_Datatype GetMPIDataType<char>() { return MPI_CHAR; }
template<> inline MPI_Datatype GetMPIDataType<int>() { return MPI_INT; }
template<> inline MPI_Datatype GetMPIDataType<size_t>() { return MPI_UNSIGNED_LONG; }
template<> inline MPI_Datatype GetMPIDataType<std::complex<double>>() { return MPI_CXX_DOUBLE_COMPLEX; }
template<> inline MPI_Datatype GetMPIDataType<std::complex<float>>() { return MPI_CXX_FLOAT_COMPLEX; }
template<class T> inline int MPI_Bcast(T *p, size_t n, int root, MPI_Comm c) { return ::MPI_Bcast((void *) p, (int) n, GetMPIDataType<T>(), root, c); }
template<class T> inline int MPI_Bcast(T *p, size_t n, MPI_Comm c) { return ::MPI_Bcast((void *) p, (int) n, GetMPIDataType<T>(), kMPIMasterRank, c); }
template<class T> inline int MPI_Send(const T *p, size_t n, int dst, int tag, MPI_Comm c) { return ::MPI_Send((const void *) p, (int) n, GetMPIDataType<T>(), dst, tag, c); }
template<class T> inline MPI_Status MPI_Recv(T *p, size_t n, int src, int tag, MPI_Comm c) { MPI_Status s; ::MPI_Recv((void *) p, (int) n, GetMPIDataType<T>(), src, tag, c, &s); return s; }
inline unsigned GetTensorManipulationThreads() { return 1; }
inline void SetTensorManipulationThreads(unsigned) {}
inline void GatherAndPrintErrorMessages(const std::string &, MPI_Comm) {}
template<class T> inline void VectorCopy(const T *s, size_t n, T *d) { for (size_t i = 0; i < n; ++i) d[i] = s[i]; }
}
inline void HandleMPIError(int e) { if (e != MPI_SUCCESS) { std::cerr << "MPI error\n"; std::exit(EXIT_FAILURE); } }
}
#ifndef HANDLE_MPI_ERROR
#define HANDLE_MPI_ERROR(err) do { if ((err) != MPI_SUCCESS) { std::cerr << "MPI error\n"; std::exit(EXIT_FAILURE); } } while (0)
#endif
#endif
