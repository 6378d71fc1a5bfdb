// Extra translation unit: names template members the library itself never instantiates, so that the
// type-checked bodies exist in the syntax tree.  Never linked, never run.
#include "Conserved/Composite/cquantity.h"
#include "Conserved/Composite/quantity_vector.h"
#include "Conserved/quantity.h"
#include "MPT.h"
#include "blockTensor/LinearAlgebra.h"
#include "blockTensor/btensor.h"
#include "blockTensor/flat_map.h"
#include "dmrg.h"
#include "models.h"
#include "operators.h"

namespace quantit_verif_probe
{
using namespace quantit;
using namespace quantit::conserved;
using FM = flat_map<int, double>;
using Coll = void (*)(double &, const double &);
using NoColl = void (*)(double &);

template <uint16_t N>
void cyclic()
{
	C<N> a(int16_t(1)), b;
	a.op(b);
	a.op(b, true);
	a += b;
	a *= b;
	(void)(a + b);
	(void)(a * b);
	a.inverse_();
	(void)a.inverse();
	(void)(a == b);
	(void)(a != b);
	(void)(a < b);
	(void)(a > b);
	a.swap(b);
	swap(a, b);
	(void)a.get_val();
	(void)uint16_t(a);
	(void)a.distance2(b);
	(void)a.distance(b);
}
template void cyclic<1>();
template void cyclic<2>();
template void cyclic<3>();
template void cyclic<4>();
template void cyclic<6>();
template void cyclic<255>();
template void cyclic<256>();
template void cyclic<16384>();
template void cyclic<32767>();
template void cyclic<32769>();
template void cyclic<65535>();

void integers(Z a, Z b)
{
	a.op(b);
	a.op(b, true);
	(void)(a + b);
	(void)(a * b);
}

void map(FM m, const FM &c, FM::const_iterator h, FM::iterator mh, FM::value_type v, const FM::value_type &cv, int k, const int &ck, double d,
         const double &cd, Coll coll, NoColl nocoll, std::initializer_list<FM::value_type> il)
{
	FM e;
	FM e2(size_t(3));
	FM e3(FM::content_t{});
	FM::content_t ct;
	FM e4(ct);
	FM e5(c);
	FM e6(std::move(e5));
	FM e7(il);
	FM e8(c.begin(), c.end());
	e = c;
	e = std::move(e6);
	m.at(k);
	c.at(k);
	m[k];
	m.insert(v);
	m.insert(cv);
	m.insert(std::move(v));
	m.insert(h, cv);
	m.insert(h, FM::value_type(v));
	m.insert(c.begin(), c.end());
	m.insert(c.begin(), c.end(), coll);
	m.insert(c.begin(), c.end(), coll, nocoll);
	m.insert(ct.begin(), ct.end(), [](auto &, auto &) {});
	m.emplace(h, k, d);
	m.emplace(mh, k, d);
	m.erase(h);
	m.erase(mh);
	m.erase(h, h);
	m.erase(k);
	m.swap(e);
	m.merge(c, coll);
	m.merge(c, coll, nocoll);
	m.merge(c);
	m.merge(FM(c), [](auto &, auto &) {});
	m.merge(FM(c), [](auto &, auto &) {}, [](auto &) {});
	m.find(k);
	c.find(k);
	c.count(k);
	c.contains(k);
	m.equal_range(k);
	c.equal_range(k);
	m.lower_bound(k);
	c.lower_bound(k);
	m.upper_bound(k);
	c.upper_bound(k);
	m.sort();
	(void)(m == c);
}
template <class It>
void walk_block(It a, It b)
{
	++a;
	--a;
	a++;
	a--;
	(void)*a;
	(void)(a == b);
}
template void walk_block(btensor::const_block_qtt_iter, btensor::const_block_qtt_iter);
template void walk_block(btensor::const_block_size_iter, btensor::const_block_size_iter);
template void walk_block(btensor::block_qtt_iter, btensor::block_qtt_iter);
template void walk_block(btensor::block_size_iter, btensor::block_size_iter);
} // namespace quantit_verif_probe
