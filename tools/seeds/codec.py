F = "src/codec/edo9300_ocgcore_encode.cpp"
D = "src/codec/edo9300_ocgcore_decode.cpp"
PRE = r'''
#include <cstdio>
#include <cstring>
#include <vector>
#include <google/protobuf/arena.h>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/proto/duel/answer.hpp>
#include <ygopen/proto/duel/msg.hpp>
using namespace YGOpen;
using Place = Proto::Duel::Place;
namespace OC = Codec::Edo9300::OCGCore;
struct Buf : std::vector<uint8_t>
{
	template<typename T> Buf& p(T v) { uint8_t b[sizeof(T)]; std::memcpy(b, &v, sizeof v); insert(end(), b, b + sizeof v); return *this; }
	Buf& u8(uint8_t v) { return p(v); }
	Buf& u16(uint16_t v) { return p(v); }
	Buf& u32(uint32_t v) { return p(v); }
	Buf& u64(uint64_t v) { return p(v); }
	Buf& loc(int con, int l, uint32_t seq, uint32_t pos) { return u8(con).u8(l).u32(seq).u32(pos); }
};
struct Ctx : Codec::IEncodeContext
{
	size_t sizes[2][0x500]{};
	std::vector<Place> def;
	bool mats = false;
	int left = 0;
	auto pile_size(Con c, Loc l) const noexcept -> size_t override { return sizes[c][l]; }
	auto get_match_win_reason() const noexcept -> uint32_t override { return 7; }
	auto has_xyz_mat(Place const&) const noexcept -> bool override { return mats; }
	auto get_xyz_left(Place const& p) const noexcept -> Place override { return p; }
	auto match_win_reason(uint32_t) noexcept -> void override {}
	auto xyz_mat_defer(Place const& p) noexcept -> void override { def.push_back(p); }
	auto take_deferred_xyz_mat() noexcept -> std::vector<Place> override { auto r = def; def.clear(); return r; }
	auto xyz_left(Place const&, Place const&) noexcept -> void override { left++; }
};
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
'''
SEEDS = [
 ("c01-unknown-query", "C01", [(F, 'skip(data, size - sizeof(CQFlag), "unknown query type: ", flag);', 'skip(data, size & ~static_cast<CQSize>(sizeof(CQFlag)), "unknown query type: ", flag);')],
  "a query list with a record kind the encoder does not model and whose size has bit 2 clear",
  "the bytes consumed for a card update differ from the length of the message",
  PRE + r'''
int main()
{
	Buf b;
	b.u8(7).u8(0).u8(4).u8(2);
	b.u16(12).u32(0x1000).u64(1); // reason, not modelled; 12 = 0b1100
	b.u16(8).u32(1).u32(99);
	b.u16(4 + 5).u32(0x2000).u32(3).u8(0);
	b.u16(4).u32(0x80000000);
	size_t n = b.size();
	b.insert(b.end(), 64, 0);
	for(int i = 0; i < 8; i++) b.u16(4).u32(0x80000000);
	google::protobuf::Arena a; Ctx c;
	auto r = OC::encode_one(a, c, b.data());
	CHECK(r.bytes_read == n);
	CHECK(r.msg != nullptr && r.msg->queries(0).data().code().value() == 99);
}
'''),
 ("c05-counter-type", "C05", [(F, "counter.set_type(c & 0xFFFFU);", "counter.set_type(c & 0xFFFU);")],
  "a counter whose type is 0x1000 or larger (the core has many)", "the counter's type is truncated",
  PRE + r'''
int main()
{
	Buf b;
	b.u8(7).u8(1).u8(4).u8(0);
	b.u16(4 + 4 + 4).u32(0x20000).u32(1).u32(0x00031015);
	b.u16(4).u32(0x80000000);
	google::protobuf::Arena a; Ctx c;
	auto r = OC::encode_one(a, c, b.data());
	CHECK(r.msg != nullptr);
	auto const& v = r.msg->queries(0).data().counters().values(0);
	CHECK(v.type() == 0x1015 && v.count() == 3);
}
'''),
 ("c07-deferred-noop", "C07", [(F, "if(def.con() == curr.con() && def.loc() == curr.loc() &&\n\t\t\t\t   def.seq()", "if(def.loc() == curr.loc() &&\n\t\t\t\t   def.seq()")],
  "a material taken from the opponent's zone with the same index as the zone its new owner arrives at", "the attach operation of that material is dropped",
  PRE + r'''
int main()
{
	google::protobuf::Arena a; Ctx c;
	// the material of the opponent's monster in zone 2 goes below a card in the extra deck
	Buf m; m.u8(50).u32(1).loc(1, 0x84, 2, 0).loc(0, 0xC0, 3, 0).u32(0);
	auto r = OC::encode_one(a, c, m.data());
	CHECK(r.msg == nullptr && c.def.size() == 1);
	Buf b; b.u8(50).u32(1).loc(0, 0x40, 3, 1).loc(0, 4, 2, 1).u32(0);
	r = OC::encode_one(a, c, b.data());
	CHECK(r.msg != nullptr);
	CHECK(r.msg->event().card().move().ops_size() == 2);
}
'''),
 ("c08-second-run", "C08", [(F, "from->set_seq(splice_seq - sent_to_extra);", "from->set_seq(splice_seq);")],
  "a graveyard swap in which two separate runs of cards go to the extra deck", "the second run is taken from the wrong position of the main deck",
  PRE + r'''
int main()
{
	google::protobuf::Arena a; Ctx c;
	c.sizes[0][0x10] = 4; c.sizes[0][1] = 2;
	Buf b; b.u8(35).u8(0).u32(5).u32(1).u8(0b0101);
	auto r = OC::encode_one(a, c, b.data());
	CHECK(r.msg != nullptr);
	auto const& s = r.msg->event().pile().splice();
	CHECK(s.ops_size() == 4);
	CHECK(s.ops(2).from().seq() == 0 && s.ops(2).count() == 1 && s.ops(2).to().seq() == 5);
	CHECK(s.ops(3).from().seq() == 1 && s.ops(3).count() == 1 && s.ops(3).to().seq() == 6);
}
'''),
 ("c09-wide-index", "C09", [(D, "write(ptr, static_cast<int16_t>(index));", "write(ptr, static_cast<int16_t>(static_cast<int8_t>(index)));")],
  "selecting a card whose index in the request is 128 or more", "the answer denotes a different card",
  PRE + r'''
int main()
{
	Proto::Duel::Msg::Request q; q.mutable_select_card()->mutable_unique_range();
	Proto::Duel::Answer n; n.mutable_select_card()->mutable_indexes()->add_values(130);
	std::vector<uint8_t> out;
	OC::decode_one_answer(q, n, out);
	CHECK(out.size() == 10);
	int16_t v; std::memcpy(&v, out.data() + 8, 2);
	CHECK(v == 130);
}
'''),
 ("c07-skipped-index", "C07", [(F, """				   def.seq() == curr.seq() && def.oseq() == oseq)
					continue;""", """				   def.seq() == curr.seq() && def.oseq() == oseq)
				{
					i--;
					continue;
				}""")],
  "several attachments were deferred, the first of them to the place it is at already", "the following ones are put one position too early",
  PRE + r'''
int main()
{
	google::protobuf::Arena a; Ctx c;
	for(int k = 0; k < 2; k++)
	{
		Place p;
		p.set_con(static_cast<decltype(p.con())>(0));
		p.set_loc(static_cast<decltype(p.loc())>(4));
		p.set_seq(2);
		p.set_oseq(k == 0 ? 0 : 4);
		c.def.push_back(p);
	}
	Buf b; b.u8(50).u32(1).loc(0, 0x40, 3, 1).loc(0, 4, 2, 1).u32(0);
	auto r = OC::encode_one(a, c, b.data());
	CHECK(r.bytes_read == b.size());
	CHECK(r.msg != nullptr);
	auto const& m = r.msg->event().card().move();
	CHECK(m.ops_size() == 2);
	CHECK(m.ops(0).old_place().oseq() == 4);
	CHECK(m.ops(0).new_place().oseq() == 1);
}
'''),
 ("c01-long-name", "C01", [(F, 'read<uint16_t>(data, "name length") + 1U', 'static_cast<uint8_t>(read<uint16_t>(data, "name length")) + 1U')],
  "the name of the opponent is 256 characters or longer", "the bytes consumed differ from the length of the message",
  PRE + r'''
int main()
{
	Buf b; b.u8(163).u16(300);
	b.insert(b.end(), 300, 'x');
	b.u8(0);
	google::protobuf::Arena a; Ctx c;
	auto r = OC::encode_one(a, c, b.data());
	CHECK(r.bytes_read == b.size());
}
'''),
]
