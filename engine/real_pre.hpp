// Forced include of the plain build: a failed Eigen assertion is reported by the harness runtime.
#pragma once
namespace verif { void on_assert(const char *what, const char *file, int line); }
#define eigen_assert(x) do { if (!(x)) ::verif::on_assert(#x, __FILE__, __LINE__); } while (0)
