// Stand-in for the (unavailable offline) PX4-Matrix library: same documented contract for the operations ecl uses.
#pragma once
#include <math.h>
#include <stddef.h>
#include <stdint.h>
#include <float.h>
#include <string.h>
#include <cmath>
#include <type_traits>

#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif

namespace matrix
{

template<typename Type, size_t M, size_t N> class Matrix;
template<typename Type, size_t M> class Vector;
template<typename Type> class Vector2;
template<typename Type> class Vector3;
template<typename Type, size_t M> class SquareMatrix;
template<typename Type> class Dcm;
template<typename Type> class Quaternion;
template<typename Type> class Euler;
template<typename Type> class AxisAngle;

template<typename Type> bool is_finite(Type x) { return __builtin_isfinite(x); }

namespace typeFunction
{
template<typename Type> Type min(const Type x, const Type y)
{
	const bool xn = __builtin_isnan(x), yn = __builtin_isnan(y);
	if (xn && !yn) { return y; }
	if (!xn && yn) { return x; }
	return (x < y) ? x : y;
}
template<typename Type> Type max(const Type x, const Type y)
{
	const bool xn = __builtin_isnan(x), yn = __builtin_isnan(y);
	if (xn && !yn) { return y; }
	if (!xn && yn) { return x; }
	return (x > y) ? x : y;
}
template<typename Type> Type constrain(const Type x, const Type lo, const Type hi)
{
	if (lo > hi || __builtin_isnan(x)) { return Type(NAN); }
	return typeFunction::max(lo, typeFunction::min(hi, x));
}
}

template<typename T> T sign(T v) { return T((T(0) < v) - (v < T(0))); }

template<typename Type> Type wrap_floating(Type x, Type low, Type high)
{
	if (low <= x && x < high) { return x; }
	const Type range = high - low;
	const Type inv_range = Type(1) / range;
	const Type num_wraps = std::floor((x - low) * inv_range);
	return x - range * num_wraps;
}
template<typename Type> Type wrap(Type x, Type low, Type high) { return wrap_floating(x, low, high); }
template<typename Type> Type wrap_pi(Type x) { return wrap(x, Type(-M_PI), Type(M_PI)); }
template<typename Type> Type wrap_2pi(Type x) { return wrap(x, Type(0), Type(M_PI * 2)); }

template<typename Type, size_t P, size_t Q, size_t M, size_t N>
class Slice
{
public:
	Slice(size_t x0, size_t y0, const Matrix<Type, M, N> *data) : _x0(x0), _y0(y0), _m(const_cast<Matrix<Type, M, N> *>(data)) {}
	Slice(const Slice &) = default;

	const Type &operator()(size_t i, size_t j) const { return (*_m)(_x0 + i, _y0 + j); }
	Type &operator()(size_t i, size_t j) { return (*_m)(_x0 + i, _y0 + j); }
	const Type &operator()(size_t i) const { return Q == 1 ? (*_m)(_x0 + i, _y0) : (*_m)(_x0, _y0 + i); }
	Type &operator()(size_t i) { return Q == 1 ? (*_m)(_x0 + i, _y0) : (*_m)(_x0, _y0 + i); }

	template<size_t MM, size_t NN>
	Slice &operator=(const Slice<Type, P, Q, MM, NN> &o)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) = o(i, j); } }
		return *this;
	}
	Slice &operator=(const Slice &o)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) = o(i, j); } }
		return *this;
	}
	Slice &operator=(const Matrix<Type, P, Q> &o)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) = o(i, j); } }
		return *this;
	}
	Slice &operator=(const Type &v)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) = v; } }
		return *this;
	}
	// a row slice accepts a column vector
	template<size_t DIM, typename = typename std::enable_if<(P == 1 && Q == DIM && Q > 1)>::type>
	Slice &operator=(const Vector<Type, DIM> &o)
	{
		for (size_t j = 0; j < Q; j++) { (*this)(0, j) = o(j); }
		return *this;
	}
	Slice &operator+=(const Matrix<Type, P, Q> &o) { for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) += o(i, j); } return *this; }
	Slice &operator-=(const Matrix<Type, P, Q> &o) { for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) -= o(i, j); } return *this; }
	Slice &operator+=(const Type &v) { for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) += v; } return *this; }
	Slice &operator-=(const Type &v) { return *this += -v; }
	Slice &operator*=(const Type &v) { for (size_t i = 0; i < P; i++) for (size_t j = 0; j < Q; j++) { (*this)(i, j) *= v; } return *this; }
	Slice &operator/=(const Type &v) { return *this *= Type(1) / v; }
	Matrix<Type, P, Q> operator+(const Matrix<Type, P, Q> &o) const { return Matrix<Type, P, Q>(*this) + o; }
	Matrix<Type, P, Q> operator-(const Matrix<Type, P, Q> &o) const { return Matrix<Type, P, Q>(*this) - o; }
	Matrix<Type, P, Q> operator*(const Type &v) const { return Matrix<Type, P, Q>(*this) * v; }
	Matrix<Type, P, Q> operator/(const Type &v) const { return Matrix<Type, P, Q>(*this) / v; }
	Matrix<Type, P, Q> operator-() const { return -Matrix<Type, P, Q>(*this); }

	Vector < Type, P < Q ? P : Q > diag() const
	{
		Vector < Type, P < Q ? P : Q > r;
		for (size_t i = 0; i < (P < Q ? P : Q); i++) { r(i) = (*this)(i, i); }
		return r;
	}
	Type norm_squared() const
	{
		Type a(0);
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { a += (*this)(i, j) * (*this)(i, j); } }
		return a;
	}
	Type norm() const { return std::sqrt(norm_squared()); }
	bool longerThan(Type v) const { return norm_squared() > v * v; }
	Type max() const { return Matrix<Type, P, Q>(*this).max(); }
	Type min() const { return Matrix<Type, P, Q>(*this).min(); }
	void copyTo(Type dst[P * Q]) const { Matrix<Type, P, Q>(*this).copyTo(dst); }
	Matrix<Type, Q, P> transpose() const { return Matrix<Type, P, Q>(*this).transpose(); }

private:
	size_t _x0, _y0;
	Matrix<Type, M, N> *_m;
};

template<typename Type, size_t M, size_t N>
class Matrix
{
	Type _data[M][N] {};
public:
	Matrix() = default;
	explicit Matrix(const Type d[M * N]) { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] = d[N * i + j]; } }
	explicit Matrix(const Type d[M][N]) { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] = d[i][j]; } }
	Matrix(const Matrix &o) = default;
	template<size_t P, size_t Q>
	Matrix(const Slice<Type, M, N, P, Q> &s) { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] = s(i, j); } }

	const Type &operator()(size_t i, size_t j) const { return _data[i][j]; }
	Type &operator()(size_t i, size_t j) { return _data[i][j]; }
	Matrix &operator=(const Matrix &o) = default;

	void copyTo(Type dst[M * N]) const { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { dst[i * N + j] = _data[i][j]; } }

	template<size_t P> Matrix<Type, M, P> operator*(const Matrix<Type, N, P> &o) const
	{
		Matrix<Type, M, P> r;
		for (size_t i = 0; i < M; i++) { for (size_t k = 0; k < P; k++) { for (size_t j = 0; j < N; j++) { r(i, k) += _data[i][j] * o(j, k); } } }
		return r;
	}
	Matrix operator+(const Matrix &o) const { Matrix r; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { r(i, j) = _data[i][j] + o(i, j); } return r; }
	Matrix operator-(const Matrix &o) const { Matrix r; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { r(i, j) = _data[i][j] - o(i, j); } return r; }
	Matrix operator-() const { Matrix r; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { r(i, j) = -_data[i][j]; } return r; }
	Matrix operator*(Type v) const { Matrix r; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { r(i, j) = _data[i][j] * v; } return r; }
	Matrix operator/(Type v) const { return (*this) * (1 / v); }
	Matrix operator+(Type v) const { Matrix r; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { r(i, j) = _data[i][j] + v; } return r; }
	Matrix operator-(Type v) const { return (*this) + (-1 * v); }
	Matrix &operator+=(const Matrix &o) { *this = *this + o; return *this; }
	Matrix &operator-=(const Matrix &o) { *this = *this - o; return *this; }
	template<size_t P> Matrix &operator*=(const Matrix<Type, N, P> &o) { *this = *this * o; return *this; }
	Matrix &operator*=(Type v) { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] *= v; } return *this; }
	Matrix &operator/=(Type v) { return *this *= (Type(1) / v); }
	Matrix &operator+=(Type v) { *this = *this + v; return *this; }
	Matrix &operator-=(Type v) { *this = *this - v; return *this; }
	Matrix emult(const Matrix &o) const { Matrix r; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { r(i, j) = _data[i][j] * o(i, j); } return r; }
	Matrix edivide(const Matrix &o) const { Matrix r; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { r(i, j) = _data[i][j] / o(i, j); } return r; }
	bool operator==(const Matrix &o) const { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { if (!(_data[i][j] == o(i, j))) { return false; } } return true; }
	bool operator!=(const Matrix &o) const { return !(*this == o); }

	Matrix<Type, N, M> transpose() const { Matrix<Type, N, M> r; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { r(j, i) = _data[i][j]; } return r; }
	Matrix<Type, N, M> T() const { return transpose(); }

	template<size_t P, size_t Q> const Slice<Type, P, Q, M, N> slice(size_t x0, size_t y0) const { return Slice<Type, P, Q, M, N>(x0, y0, this); }
	template<size_t P, size_t Q> Slice<Type, P, Q, M, N> slice(size_t x0, size_t y0) { return Slice<Type, P, Q, M, N>(x0, y0, this); }
	const Slice<Type, 1, N, M, N> row(size_t i) const { return slice<1, N>(i, 0); }
	Slice<Type, 1, N, M, N> row(size_t i) { return slice<1, N>(i, 0); }
	const Slice<Type, M, 1, M, N> col(size_t j) const { return slice<M, 1>(0, j); }
	Slice<Type, M, 1, M, N> col(size_t j) { return slice<M, 1>(0, j); }
	void setRow(size_t i, const Matrix<Type, N, 1> &r) { for (size_t j = 0; j < N; j++) { _data[i][j] = r(j, 0); } }
	void setRow(size_t i, Type v) { for (size_t j = 0; j < N; j++) { _data[i][j] = v; } }
	void setCol(size_t j, const Matrix<Type, M, 1> &c) { for (size_t i = 0; i < M; i++) { _data[i][j] = c(i, 0); } }
	void setCol(size_t j, Type v) { for (size_t i = 0; i < M; i++) { _data[i][j] = v; } }
	void setAll(Type v) { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { _data[i][j] = v; } }
	void setZero() { memset(_data, 0, sizeof(_data)); }
	void zero() { setZero(); }
	void setOne() { setAll(1); }
	void setNaN() { setAll(NAN); }
	void setIdentity() { setZero(); for (size_t i = 0; i < (M < N ? M : N); i++) { _data[i][i] = 1; } }
	Matrix abs() const { Matrix r; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { r(i, j) = std::fabs(_data[i][j]); } return r; }
	Type max() const { Type m = _data[0][0]; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { if (_data[i][j] > m) { m = _data[i][j]; } } return m; }
	Type min() const { Type m = _data[0][0]; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { if (_data[i][j] < m) { m = _data[i][j]; } } return m; }
	bool isAllFinite() const { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { if (!__builtin_isfinite(_data[i][j])) { return false; } } return true; }
	bool isAllNan() const { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { if (!__builtin_isnan(_data[i][j])) { return false; } } return true; }
	Type *data() { return &_data[0][0]; }
	const Type *data() const { return &_data[0][0]; }
};

template<typename Type, size_t M, size_t N> Matrix<Type, M, N> operator*(Type v, const Matrix<Type, M, N> &m) { return m * v; }
template<typename Type, size_t M, size_t N> Matrix<Type, M, N> zeros() { return Matrix<Type, M, N>(); }
template<typename Type, size_t M, size_t N> Matrix<Type, M, N> ones() { Matrix<Type, M, N> m; m.setOne(); return m; }
template<typename Type, size_t M, size_t N> Matrix<Type, M, N> min(const Matrix<Type, M, N> &x, const Type b) { Matrix<Type, M, N> m; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::min(x(i, j), b); } return m; }
template<typename Type, size_t M, size_t N> Matrix<Type, M, N> min(const Type b, const Matrix<Type, M, N> &x) { return min(x, b); }
template<typename Type, size_t M, size_t N> Matrix<Type, M, N> max(const Matrix<Type, M, N> &x, const Type b) { Matrix<Type, M, N> m; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::max(x(i, j), b); } return m; }
template<typename Type, size_t M, size_t N> Matrix<Type, M, N> max(const Type b, const Matrix<Type, M, N> &x) { return max(x, b); }
template<typename Type, size_t M, size_t N> Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const Type lo, const Type hi)
{
	Matrix<Type, M, N> m;
	if (lo > hi) { m.setNaN(); } else { for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::constrain(x(i, j), lo, hi); } }
	return m;
}

template<typename Type, size_t M, size_t N> Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &lo, const Matrix<Type, M, N> &hi)
{
	Matrix<Type, M, N> m;
	for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::constrain(x(i, j), lo(i, j), hi(i, j)); }
	return m;
}

template<typename Type, size_t M, size_t N> bool isEqual(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &y, const Type eps = Type(1e-4f))
{
	for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { if (!(std::fabs(x(i, j) - y(i, j)) <= eps)) { return false; } }
	return true;
}
template<typename Type> bool isEqualF(const Type x, const Type y, const Type eps = Type(1e-4f)) { return std::fabs(x - y) <= eps; }

template<typename Type, size_t M>
class Vector : public Matrix<Type, M, 1>
{
public:
	using MatrixM1 = Matrix<Type, M, 1>;
	Vector() = default;
	Vector(const MatrixM1 &o) : MatrixM1(o) {}
	explicit Vector(const Type d[M]) : MatrixM1(d) {}
	template<size_t P, size_t Q> Vector(const Slice<Type, M, 1, P, Q> &s) : MatrixM1(s) {}
	template<size_t P, size_t Q, size_t DIM = M, typename = typename std::enable_if<(DIM > 1)>::type>
	Vector(const Slice<Type, 1, M, P, Q> &s) { for (size_t i = 0; i < M; i++) { (*this)(i) = s(0, i); } }
	const Type &operator()(size_t i) const { return MatrixM1::operator()(i, 0); }
	Type &operator()(size_t i) { return MatrixM1::operator()(i, 0); }
	Type dot(const MatrixM1 &b) const { Type r(0); for (size_t i = 0; i < M; i++) { r += (*this)(i) * b(i, 0); } return r; }
	Type operator*(const MatrixM1 &b) const { return dot(b); }
	Vector operator*(Type b) const { return Vector(MatrixM1::operator*(b)); }
	Type norm() const { return Type(std::sqrt(dot(*this))); }
	Type norm_squared() const { return dot(*this); }
	Type length() const { return norm(); }
	void normalize() { (*this) /= norm(); }
	Vector unit() const { return (*this) / norm(); }
	Vector unit_or_zero(const Type eps = Type(1e-5)) const { const Type n = norm(); if (n > eps) { return (*this) / n; } return Vector(); }
	Vector normalized() const { return unit(); }
	bool longerThan(Type v) const { return norm_squared() > v * v; }
	Vector sqrt() const { Vector r; for (size_t i = 0; i < M; i++) { r(i) = std::sqrt((*this)(i)); } return r; }
};

template<typename Type>
class Vector2 : public Vector<Type, 2>
{
public:
	using Matrix21 = Matrix<Type, 2, 1>;
	Vector2() = default;
	Vector2(const Matrix21 &o) : Vector<Type, 2>(o) {}
	explicit Vector2(const Type d[2]) : Vector<Type, 2>(d) {}
	Vector2(Type x, Type y) { (*this)(0) = x; (*this)(1) = y; }
	template<size_t P, size_t Q> Vector2(const Slice<Type, 2, 1, P, Q> &s) : Vector<Type, 2>(s) {}
	explicit Vector2(const Vector3<Type> &o) { (*this)(0) = o(0); (*this)(1) = o(1); }
	Type cross(const Matrix21 &b) const { return (*this)(0) * b(1, 0) - (*this)(1) * b(0, 0); }
	Type operator%(const Matrix21 &b) const { return cross(b); }
};

template<typename Type>
class Vector3 : public Vector<Type, 3>
{
public:
	using Matrix31 = Matrix<Type, 3, 1>;
	Vector3() = default;
	Vector3(const Matrix31 &o) : Vector<Type, 3>(o) {}
	explicit Vector3(const Type d[3]) : Vector<Type, 3>(d) {}
	Vector3(Type x, Type y, Type z) { (*this)(0) = x; (*this)(1) = y; (*this)(2) = z; }
	template<size_t P, size_t Q> Vector3(const Slice<Type, 3, 1, P, Q> &s) : Vector<Type, 3>(s) {}
	template<size_t P, size_t Q> Vector3(const Slice<Type, 1, 3, P, Q> &s) : Vector<Type, 3>(s) {}
	Vector3 cross(const Matrix31 &b) const
	{
		const Vector3 &a = *this;
		return {a(1) *b(2, 0) - a(2) *b(1, 0), -a(0) *b(2, 0) + a(2) *b(0, 0), a(0) *b(1, 0) - a(1) *b(0, 0)};
	}
	Vector3 operator+(const Matrix31 &o) const { return Matrix31::operator+(o); }
	Vector3 operator+(Type v) const { return Matrix31::operator+(v); }
	Vector3 operator-(const Matrix31 &o) const { return Matrix31::operator-(o); }
	Vector3 operator-(Type v) const { return Matrix31::operator-(v); }
	Vector3 operator-() const { return Matrix31::operator-(); }
	Vector3 operator*(Type v) const { return Matrix31::operator*(v); }
	Type operator*(const Matrix31 &b) const { return Vector<Type, 3>::operator*(b); }
	Vector3 operator%(const Matrix31 &b) const { return cross(b); }
	Vector3 unit() const { return Vector3(Vector<Type, 3>::unit()); }
	Vector3 normalized() const { return unit(); }
	const Slice<Type, 2, 1, 3, 1> xy() const { return Slice<Type, 2, 1, 3, 1>(0, 0, this); }
	Slice<Type, 2, 1, 3, 1> xy() { return Slice<Type, 2, 1, 3, 1>(0, 0, this); }
	SquareMatrix<Type, 3> hat() const
	{
		const Vector3 &v = *this;
		SquareMatrix<Type, 3> A;
		A(0, 1) = -v(2); A(0, 2) = v(1); A(1, 0) = v(2); A(1, 2) = -v(0); A(2, 0) = -v(1); A(2, 1) = v(0);
		return A;
	}
};

template<typename Type, size_t M>
class SquareMatrix : public Matrix<Type, M, M>
{
public:
	SquareMatrix() = default;
	explicit SquareMatrix(const Type d[M][M]) : Matrix<Type, M, M>(d) {}
	explicit SquareMatrix(const Type d[M * M]) : Matrix<Type, M, M>(d) {}
	SquareMatrix(const Matrix<Type, M, M> &o) : Matrix<Type, M, M>(o) {}
	template<size_t P, size_t Q> SquareMatrix(const Slice<Type, M, M, P, Q> &s) : Matrix<Type, M, M>(s) {}
	SquareMatrix &operator=(const Matrix<Type, M, M> &o) { Matrix<Type, M, M>::operator=(o); return *this; }
	template<size_t P, size_t Q> SquareMatrix &operator=(const Slice<Type, M, M, P, Q> &s) { Matrix<Type, M, M>::operator=(Matrix<Type, M, M>(s)); return *this; }
	Vector<Type, M> diag() const { Vector<Type, M> r; for (size_t i = 0; i < M; i++) { r(i) = (*this)(i, i); } return r; }
	Type trace() const { Type r(0); for (size_t i = 0; i < M; i++) { r += (*this)(i, i); } return r; }
	template<size_t Width> void uncorrelateCovariance(size_t first)
	{
		SquareMatrix &self = *this;
		Vector<Type, Width> d;
		for (size_t i = 0; i < Width; i++) { d(i) = self(first + i, first + i); }
		self.template uncorrelateCovarianceSetVariance<Width>(first, d);
	}
	template<size_t Width> void uncorrelateCovarianceSetVariance(size_t first, const Vector<Type, Width> &vec)
	{
		SquareMatrix &self = *this;
		for (size_t i = first; i < first + Width; i++) { for (size_t j = 0; j < M; j++) { self(i, j) = Type(0); self(j, i) = Type(0); } }
		for (size_t i = 0; i < Width; i++) { self(first + i, first + i) = vec(i); }
	}
	template<size_t Width> void uncorrelateCovarianceSetVariance(size_t first, Type val)
	{
		SquareMatrix &self = *this;
		for (size_t i = first; i < first + Width; i++) { for (size_t j = 0; j < M; j++) { self(i, j) = Type(0); self(j, i) = Type(0); } }
		for (size_t i = 0; i < Width; i++) { self(first + i, first + i) = val; }
	}
	template<size_t Width> void makeBlockSymmetric(size_t first)
	{
		SquareMatrix &self = *this;
		for (size_t i = first + 1; i < first + Width; i++) {
			for (size_t j = first; j < i; j++) { const Type t = (self(i, j) + self(j, i)) / Type(2); self(i, j) = t; self(j, i) = t; }
		}
	}
	template<size_t Width> void makeRowColSymmetric(size_t first)
	{
		SquareMatrix &self = *this;
		self.template makeBlockSymmetric<Width>(first);
		for (size_t i = first; i < first + Width; i++) {
			for (size_t j = 0; j < first; j++) { const Type t = (self(i, j) + self(j, i)) / Type(2); self(i, j) = t; self(j, i) = t; }
			for (size_t j = first + Width; j < M; j++) { const Type t = (self(i, j) + self(j, i)) / Type(2); self(i, j) = t; self(j, i) = t; }
		}
	}
};

template<typename Type, size_t M> SquareMatrix<Type, M> eye() { SquareMatrix<Type, M> m; m.setIdentity(); return m; }
template<typename Type, size_t M> SquareMatrix<Type, M> diag(const Vector<Type, M> &d) { SquareMatrix<Type, M> m; for (size_t i = 0; i < M; i++) { m(i, i) = d(i); } return m; }

template<typename Type>
class Dcm : public SquareMatrix<Type, 3>
{
public:
	Dcm() { this->setIdentity(); }
	explicit Dcm(const Type d[3][3]) : SquareMatrix<Type, 3>(d) {}
	explicit Dcm(const Type d[9]) : SquareMatrix<Type, 3>(d) {}
	Dcm(const Matrix<Type, 3, 3> &o) : SquareMatrix<Type, 3>(o) {}
	Dcm(const Quaternion<Type> &q)
	{
		Dcm &dcm = *this;
		const Type a = q(0), b = q(1), c = q(2), d = q(3);
		const Type aa = a * a, ab = a * b, ac = a * c, ad = a * d, bb = b * b, bc = b * c, bd = b * d, cc = c * c, cd = c * d, dd = d * d;
		dcm(0, 0) = aa + bb - cc - dd;
		dcm(0, 1) = Type(2) * (bc - ad);
		dcm(0, 2) = Type(2) * (ac + bd);
		dcm(1, 0) = Type(2) * (bc + ad);
		dcm(1, 1) = aa - bb + cc - dd;
		dcm(1, 2) = Type(2) * (cd - ab);
		dcm(2, 0) = Type(2) * (bd - ac);
		dcm(2, 1) = Type(2) * (ab + cd);
		dcm(2, 2) = aa - bb - cc + dd;
	}
	Dcm(const Euler<Type> &e)
	{
		Dcm &dcm = *this;
		const Type cosPhi = std::cos(e(0)), sinPhi = std::sin(e(0)), cosThe = std::cos(e(1)), sinThe = std::sin(e(1)), cosPsi = std::cos(e(2)), sinPsi = std::sin(e(2));
		dcm(0, 0) = cosThe * cosPsi;
		dcm(0, 1) = -cosPhi * sinPsi + sinPhi * sinThe * cosPsi;
		dcm(0, 2) = sinPhi * sinPsi + cosPhi * sinThe * cosPsi;
		dcm(1, 0) = cosThe * sinPsi;
		dcm(1, 1) = cosPhi * cosPsi + sinPhi * sinThe * sinPsi;
		dcm(1, 2) = -sinPhi * cosPsi + cosPhi * sinThe * sinPsi;
		dcm(2, 0) = -sinThe;
		dcm(2, 1) = sinPhi * cosThe;
		dcm(2, 2) = cosPhi * cosThe;
	}
	Dcm(const AxisAngle<Type> &aa) { *this = Dcm(Quaternion<Type>(aa)); }
	void renormalize() { for (size_t r = 0; r < 3; r++) { Vector3<Type> v(this->row(r)); v.normalize(); for (size_t j = 0; j < 3; j++) { (*this)(r, j) = v(j); } } }
};

template<typename Type>
class Quaternion : public Vector<Type, 4>
{
public:
	using Matrix41 = Matrix<Type, 4, 1>;
	Quaternion() { (*this)(0) = 1; }
	explicit Quaternion(const Type d[4]) : Vector<Type, 4>(d) {}
	Quaternion(const Matrix41 &o) : Vector<Type, 4>(o) {}
	Quaternion(Type a, Type b, Type c, Type d) { (*this)(0) = a; (*this)(1) = b; (*this)(2) = c; (*this)(3) = d; }
	Quaternion(const Dcm<Type> &R)
	{
		Quaternion &q = *this;
		const Type t = R.trace();
		if (t > Type(0)) {
			const Type s = std::sqrt(Type(1) + t);
			q(0) = Type(0.5) * s;
			const Type k = Type(0.5) / s;
			q(1) = (R(2, 1) - R(1, 2)) * k;
			q(2) = (R(0, 2) - R(2, 0)) * k;
			q(3) = (R(1, 0) - R(0, 1)) * k;
		} else if (R(0, 0) > R(1, 1) && R(0, 0) > R(2, 2)) {
			const Type s = std::sqrt(Type(1) + R(0, 0) - R(1, 1) - R(2, 2));
			q(1) = Type(0.5) * s;
			const Type k = Type(0.5) / s;
			q(0) = (R(2, 1) - R(1, 2)) * k;
			q(2) = (R(1, 0) + R(0, 1)) * k;
			q(3) = (R(0, 2) + R(2, 0)) * k;
		} else if (R(1, 1) > R(2, 2)) {
			const Type s = std::sqrt(Type(1) - R(0, 0) + R(1, 1) - R(2, 2));
			q(2) = Type(0.5) * s;
			const Type k = Type(0.5) / s;
			q(0) = (R(0, 2) - R(2, 0)) * k;
			q(1) = (R(1, 0) + R(0, 1)) * k;
			q(3) = (R(2, 1) + R(1, 2)) * k;
		} else {
			const Type s = std::sqrt(Type(1) - R(0, 0) - R(1, 1) + R(2, 2));
			q(3) = Type(0.5) * s;
			const Type k = Type(0.5) / s;
			q(0) = (R(1, 0) - R(0, 1)) * k;
			q(1) = (R(0, 2) + R(2, 0)) * k;
			q(2) = (R(2, 1) + R(1, 2)) * k;
		}
	}
	Quaternion(const Euler<Type> &e)
	{
		Quaternion &q = *this;
		const Type cp = std::cos(e(0) / Type(2)), ct = std::cos(e(1) / Type(2)), cy = std::cos(e(2) / Type(2));
		const Type sp = std::sin(e(0) / Type(2)), st = std::sin(e(1) / Type(2)), sy = std::sin(e(2) / Type(2));
		q(0) = cp * ct * cy + sp * st * sy;
		q(1) = sp * ct * cy - cp * st * sy;
		q(2) = cp * st * cy + sp * ct * sy;
		q(3) = cp * ct * sy - sp * st * cy;
	}
	Quaternion(const AxisAngle<Type> &aa)
	{
		Quaternion &q = *this;
		const Type angle = aa.norm();
		if (angle < Type(1e-10)) {
			q(0) = Type(1); q(1) = q(2) = q(3) = 0;
		} else {
			const Vector<Type, 3> axis = aa / angle;
			const Type m = std::sin(angle / Type(2));
			q(0) = std::cos(angle / Type(2));
			q(1) = axis(0) * m; q(2) = axis(1) * m; q(3) = axis(2) * m;
		}
	}
	Quaternion operator*(const Quaternion &p) const
	{
		const Quaternion &q = *this;
		return Quaternion(
			       q(0) * p(0) - q(1) * p(1) - q(2) * p(2) - q(3) * p(3),
			       q(1) * p(0) + q(0) * p(1) - q(3) * p(2) + q(2) * p(3),
			       q(2) * p(0) + q(3) * p(1) + q(0) * p(2) - q(1) * p(3),
			       q(3) * p(0) - q(2) * p(1) + q(1) * p(2) + q(0) * p(3));
	}
	Quaternion operator*(Type v) const { return Vector<Type, 4>::operator*(v); }
	void operator*=(const Quaternion &o) { *this = *this * o; }
	Quaternion inversed() const
	{
		const Quaternion &q = *this;
		const Type n = this->dot(*this);
		return Quaternion(q(0) / n, -q(1) / n, -q(2) / n, -q(3) / n);
	}
	void invert() { *this = inversed(); }
	Vector3<Type> imag() const { return Vector3<Type>((*this)(1), (*this)(2), (*this)(3)); }
	Quaternion canonical() const { const Quaternion &q = *this; for (size_t i = 0; i < 4; i++) { if (std::fabs(q(i)) > FLT_EPSILON) { return q * Type(sign(q(i))); } } return q; }
	Vector3<Type> rotateVector(const Vector3<Type> &v) const { Quaternion p(0, v(0), v(1), v(2)); return (*this * p * inversed()).imag(); }
	Vector3<Type> rotateVectorInverse(const Vector3<Type> &v) const { Quaternion p(0, v(0), v(1), v(2)); return (inversed() * p * *this).imag(); }
};

template<typename Type>
class Euler : public Vector<Type, 3>
{
public:
	Euler() = default;
	Euler(const Vector<Type, 3> &o) : Vector<Type, 3>(o) {}
	Euler(Type phi, Type theta, Type psi) { (*this)(0) = phi; (*this)(1) = theta; (*this)(2) = psi; }
	Euler(const Dcm<Type> &dcm)
	{
		Type theta = std::asin(-dcm(2, 0)), phi, psi;
		if ((std::fabs(theta - Type(M_PI / 2))) < Type(1.0e-3)) {
			phi = 0;
			psi = std::atan2(dcm(1, 2), dcm(0, 2));
		} else if ((std::fabs(theta + Type(M_PI / 2))) < Type(1.0e-3)) {
			phi = 0;
			psi = std::atan2(-dcm(1, 2), -dcm(0, 2));
		} else {
			phi = std::atan2(dcm(2, 1), dcm(2, 2));
			psi = std::atan2(dcm(1, 0), dcm(0, 0));
		}
		(*this)(0) = phi; (*this)(1) = theta; (*this)(2) = psi;
	}
	Euler(const Quaternion<Type> &q) { *this = Euler(Dcm<Type>(q)); }
	const Type &phi() const { return (*this)(0); }
	const Type &theta() const { return (*this)(1); }
	const Type &psi() const { return (*this)(2); }
};

template<typename Type>
class AxisAngle : public Vector<Type, 3>
{
public:
	AxisAngle() = default;
	AxisAngle(const Matrix<Type, 3, 1> &o) : Vector<Type, 3>(o) {}
	AxisAngle(Type x, Type y, Type z) { (*this)(0) = x; (*this)(1) = y; (*this)(2) = z; }
	AxisAngle(const Quaternion<Type> &q)
	{
		AxisAngle &v = *this;
		const Type mag = q.imag().norm();
		if (std::fabs(mag) >= Type(1e-10)) {
			v = q.imag() * Type(Type(2) * std::atan2(mag, q(0)) / mag);
		} else {
			v = q.imag() * Type(Type(2) * Type(sign(q(0))));
		}
	}
	AxisAngle(const Vector3<Type> &axis, Type angle) { Vector3<Type> a = axis; a.normalize(); for (size_t i = 0; i < 3; i++) { (*this)(i) = a(i) * angle; } }
	Type angle() const { return this->norm(); }
};

// inverse of 2x2 (the only one ecl needs besides scalars)
template<typename Type> bool inv(const SquareMatrix<Type, 2> &A, SquareMatrix<Type, 2> &r)
{
	const Type det = A(0, 0) * A(1, 1) - A(1, 0) * A(0, 1);
	if (std::fabs(det) < FLT_EPSILON || !is_finite(det)) { return false; }
	r(0, 0) = A(1, 1); r(1, 0) = -A(1, 0); r(0, 1) = -A(0, 1); r(1, 1) = A(0, 0);
	r /= det;
	return true;
}

template<size_t N> struct force_constexpr_eval { static const size_t value = N; };

template<typename Type, size_t M, size_t ... Idxs>
class SparseVector
{
	static constexpr size_t N = sizeof...(Idxs);
	static constexpr size_t _indices[N] {Idxs...};
	template<size_t I> static constexpr size_t find() { return find_(I, 0); }
	static constexpr size_t find_(size_t v, size_t k) { return k >= N ? N : (idx(k) == v ? k : find_(v, k + 1)); }
	static constexpr size_t idx(size_t k) { return idx_(k, Idxs..., 0); }
	template<typename ... R> static constexpr size_t idx_(size_t k, size_t a, R ... r) { return k == 0 ? a : idx_(k - 1, size_t(r)...); }
	static constexpr size_t idx_(size_t, size_t a) { return a; }
	Type _data[N] {};
public:
	static constexpr size_t non_zeros() { return N; }
	static size_t index(size_t i) { const size_t ix[N] {Idxs...}; return ix[i]; }
	SparseVector() = default;
	SparseVector(const Matrix<Type, M, 1> &v) { for (size_t i = 0; i < N; i++) { _data[i] = v(index(i), 0); } }
	explicit SparseVector(const Type d[N]) { for (size_t i = 0; i < N; i++) { _data[i] = d[i]; } }
	template<size_t i> Type at() const { static_assert(find<i>() < N, "index"); return _data[find<i>()]; }
	template<size_t i> Type &at() { static_assert(find<i>() < N, "index"); return _data[find<i>()]; }
	Type atCompressedIndex(size_t i) const { return _data[i]; }
	Type &atCompressedIndex(size_t i) { return _data[i]; }
	void setZero() { for (size_t i = 0; i < N; i++) { _data[i] = 0; } }
	Type dot(const Matrix<Type, M, 1> &o) const { Type a(0); for (size_t i = 0; i < N; i++) { a += _data[i] * o(index(i), 0); } return a; }
	Type dot(const SparseVector<Type, M, Idxs...> &o) const { Type a(0); for (size_t i = 0; i < N; i++) { a += _data[i] * o._data[i]; } return a; }
	SparseVector &operator+=(Type t) { for (size_t i = 0; i < N; i++) { _data[i] += t; } return *this; }
	Type norm_squared() const { Type a(0); for (size_t i = 0; i < N; i++) { a += _data[i] * _data[i]; } return a; }
	Type norm() const { return std::sqrt(norm_squared()); }
	bool longerThan(Type t) const { return norm_squared() > t * t; }
};
template<typename Type, size_t M, size_t Q, size_t ... Idxs>
Vector<Type, Q> operator*(const Matrix<Type, Q, M> &mat, const SparseVector<Type, M, Idxs...> &v)
{
	Vector<Type, Q> r;
	for (size_t i = 0; i < Q; i++) { for (size_t k = 0; k < v.non_zeros(); k++) { r(i) += mat(i, v.index(k)) * v.atCompressedIndex(k); } }
	return r;
}
template<typename Type, size_t M, size_t ... Idxs>
Type quadraticForm(const SquareMatrix<Type, M> &A, const SparseVector<Type, M, Idxs...> &x)
{
	Type res(0);
	for (size_t i = 0; i < x.non_zeros(); i++) {
		Type t(0);
		for (size_t j = 0; j < x.non_zeros(); j++) { t += A(x.index(i), x.index(j)) * x.atCompressedIndex(j); }
		res += x.atCompressedIndex(i) * t;
	}
	return res;
}
template<size_t M, size_t ... Idxs> using SparseVectorf = SparseVector<float, M, Idxs...>;

template<typename Type>
class Scalar
{
	Type _v;
public:
	Scalar(const Matrix<Type, 1, 1> &m) : _v(m(0, 0)) {}
	Scalar(Type v) : _v(v) {}
	operator const Type &() const { return _v; }
};

using Vector2f = Vector2<float>;
using Vector3f = Vector3<float>;
using Vector2d = Vector2<double>;
using Vector3d = Vector3<double>;
using Quatf = Quaternion<float>;
using Quaternionf = Quaternion<float>;
using Dcmf = Dcm<float>;
using Eulerf = Euler<float>;
using AxisAnglef = AxisAngle<float>;
using Vector4f = Vector<float, 4>;
using Matrix3f = SquareMatrix<float, 3>;
using Matrix2f = SquareMatrix<float, 2>;
using SquareMatrix3f = SquareMatrix<float, 3>;
using Scalarf = Scalar<float>;
}
