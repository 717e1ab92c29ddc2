// Entry points for the deductive verifier: each dv_* function calls one real function of /repo with plain arguments.
// Nothing is re-implemented here; the verifier reads the LLVM IR of the real code that these calls pull in.
// The same file, compiled to a shared library, replays counterexamples on the real code.
#include "diva.hpp"
#include <cstddef>
typedef Diva<false> D; typedef uint64_t U; typedef uint32_t u4; typedef int32_t i4;
#define X extern "C" __attribute__((used))
// util.hpp
X u4 dv_bit_rank(U v, u4 i) { return bit_rank(v, i); }
X u4 dv_bit_select(U v, u4 i) { return bit_select(v, i); }
X i4 dv_lowbit_pos(U v) { return lowbit_pos(v); }
X i4 dv_highbit_pos(U v) { return highbit_pos(v); }
X void dv_set_bitmap_bit(U *b, u4 p) { set_bitmap_bit(b, p); }
X void dv_reset_bitmap_bit(U *b, u4 p) { reset_bitmap_bit(b, p); }
X U dv_get_bitmap_bit(const U *b, u4 p) { return get_bitmap_bit(b, p); }
X void dv_shift_right(U *p, u4 l, u4 r, u4 s) { shift_bitmap_right(p, l, r, s); }
X void dv_shift_left(U *p, u4 l, u4 r, u4 s) { shift_bitmap_left(p, l, r, s); }
class InfixStoreTests { public:
    typedef D::InfixStore St; typedef D::InfiniteByteString K;
    static U word_at(const uint8_t *s, u4 n, u4 p) { return K(s, n).WordAt(p); }
    static U bits_at(const uint8_t *s, u4 n, u4 p, u4 w) { return K(s, n).BitsAt(p, w); }
    static u4 get_bit(const uint8_t *s, u4 n, u4 p) { return K(s, n).GetBit(p); }
    static bool prefix_of(const uint8_t *s, u4 n, const uint8_t *t, u4 m, u4 ig) { return K(s, n).IsPrefixOf(K(t, m), ig); }
    static bool lt(const uint8_t *s, u4 n, const uint8_t *t, u4 m) { return K(s, n) < K(t, m); }
    static bool le(const uint8_t *s, u4 n, const uint8_t *t, u4 m) { return K(s, n) <= K(t, m); }
    static bool eq(const uint8_t *s, u4 n, const uint8_t *t, u4 m) { return K(s, n) == K(t, m); }
    static u4 elem_count(const St *s) { return s->GetElemCount(); }
    static u4 size_grade(const St *s) { return s->GetSizeGrade(); }
    static u4 invalid_bits(const St *s) { return s->GetInvalidBits(); }
    static bool is_partial(const St *s) { return s->IsPartialKey(); }
    static void set_elem_count(St *s, i4 v) { s->SetElemCount(v); }
    static void update_elem_count(St *s, i4 v) { s->UpdateElemCount(v); }
    static void set_size_grade(St *s, u4 v) { s->SetSizeGrade(v); }
    static void set_invalid_bits(St *s, u4 v) { s->SetInvalidBits(v); }
    static void set_partial(St *s, bool v) { s->SetPartialKey(v); }
    static u4 word_count(u4 n, u4 w) { return St::GetPtrWordCount(n, w); }
    static U get_slot(const D *d, const St *s, u4 p) { return d->GetSlot(*s, p); }
    static void set_slot(D *d, St *s, u4 p, U v) { d->SetSlot(*s, p, v); }
    static void set_slot_w(D *d, St *s, u4 p, U v, u4 w) { d->SetSlot(*s, p, v, w); }
    static void shift_slots_right(D *d, const St *s, u4 l, u4 r, u4 k) { d->ShiftSlotsRight(*s, l, r, k); }
    static void shift_slots_left(D *d, const St *s, u4 l, u4 r, u4 k) { d->ShiftSlotsLeft(*s, l, r, k); }
    static void shift_runends_right(D *d, const St *s, u4 l, u4 r, u4 k) { d->ShiftRunendsRight(*s, l, r, k); }
    static void shift_runends_left(D *d, const St *s, u4 l, u4 r, u4 k) { d->ShiftRunendsLeft(*s, l, r, k); }
    static u4 rank(const D *d, const St *s, u4 p) { return d->RankOccupieds(*s, p); }
    static u4 select(const D *d, const St *s, u4 r) { return d->SelectRunends(*s, r); }
    static i4 next_occ(const D *d, const St *s, u4 p) { return d->NextOccupied(*s, p); }
    static i4 prev_occ(const D *d, const St *s, u4 p) { return d->PreviousOccupied(*s, p); }
    static i4 next_run(const D *d, const St *s, u4 p) { return d->NextRunend(*s, p); }
    static i4 prev_run(const D *d, const St *s, u4 p) { return d->PreviousRunend(*s, p); }
    static i4 mapped_pos(const D *d, u4 i, u4 g, U sc) { return d->GetMappedPos(i, g, sc); }
    static i4 empty_after(const D *d, const St *s, u4 p) { return d->FindEmptySlotAfter(*s, p); }
    static i4 empty_before(const D *d, const St *s, u4 p) { return d->FindEmptySlotBefore(*s, p); }
    static U extract(const D *d, const uint8_t *s, u4 n, u4 sh, u4 ig, u4 im, U msb) { return d->ExtractPartialKey(K(s, n), sh, ig, im, msb); }
    static void sii(const D *d, const uint8_t *s, u4 n, const uint8_t *t, u4 m, u4 *out) { auto [a, b, c] = d->GetSharedIgnoreImplicitLengths(K(s, n), K(t, m)); out[0] = a; out[1] = b; out[2] = c; }
    static bool point(const D *d, St *s, U k, u4 ti) { return d->PointQueryInfixStore(*s, k, ti); }
    static bool range(const D *d, St *s, U l, U r, u4 ti) { return d->RangeQueryInfixStore(*s, l, r, ti); }
    static u4 longest(const D *d, St *s, U k, u4 ti) { return d->GetLongestMatchingInfixSize(*s, k, ti); }
    static u4 expanded_len(D *d, const U *list, u4 n, u4 im, u4 sh, U lo, U hi, u4 *ex) { auto [a, b] = d->GetExpandedInfixListLength(list, n, im, sh, lo, hi); *ex = b; return a; }
    static void update_list_delete(D *d, u4 sh, u4 ig, u4 im, const uint8_t *s, u4 n, const uint8_t *t, u4 m, U *list, u4 len) { d->UpdateInfixListDelete(sh, ig, im, K(s, n), K(t, m), list, len); }
    static void simple_gen(Diva<false> *d, const uint8_t *s, u4 n) { d->InsertSimple(Diva<false>::InfiniteByteString(s, n)); }
    static void simple_int(Diva<true> *d, const uint8_t *s, u4 n) { d->InsertSimple(Diva<true>::InfiniteByteString(s, n)); }
    static u4 meta_round_trip(const D *a, D *b, char *buf) { u4 n = a->SerializeMetadata(buf); u4 m = b->DeserializeMetadata(buf); return n == m ? n : 0; }
    static u4 meta_round_trip_int(const Diva<true> *a, Diva<true> *b, char *buf) { u4 n = a->SerializeMetadata(buf); u4 m = b->DeserializeMetadata(buf); return n == m ? n : 0; }
    static u4 ser_meta(const D *d, char *out) { return d->SerializeMetadata(out); }
    static u4 deser_meta(D *d, char *in) { return d->DeserializeMetadata(in); }
    static u4 ser_store(const D *d, char *out, const St *s) { return d->SerializeInfixStore(out, *s); }
    static u4 infix_list(const D *d, const St *s, U *res) { return d->GetInfixList(*s, res); }
    static void shrink_store(D *d, St *s, u4 w) { d->ShrinkInfixStoreInfixSize(*s, w); }
    // object layout, for the verifier's memory regions and for replay
    static U off(u4 i) { switch (i) { case 0: return offsetof(D, infix_size_); case 1: return offsetof(D, scaled_sizes_); case 2: return offsetof(D, size_scalars_); case 3: return offsetof(D, implicit_scalars_);
        case 4: return offsetof(D, load_factor_); case 5: return offsetof(D, rng_seed_); case 6: return offsetof(D, exception_scaled_size_); case 7: return offsetof(St, status); case 8: return offsetof(St, ptr); case 9: return sizeof(D); case 10: return sizeof(St); case 11: return offsetof(D, load_factor_alt_); } return 0; }
};
typedef InfixStoreTests T; typedef T::St St;
X U dv_off(u4 i) { return T::off(i); }
X U dv_word_at(const uint8_t *s, u4 n, u4 p) { return T::word_at(s, n, p); }
X U dv_bits_at(const uint8_t *s, u4 n, u4 p, u4 w) { return T::bits_at(s, n, p, w); }
X u4 dv_get_bit(const uint8_t *s, u4 n, u4 p) { return T::get_bit(s, n, p); }
X bool dv_prefix_of(const uint8_t *s, u4 n, const uint8_t *t, u4 m, u4 ig) { return T::prefix_of(s, n, t, m, ig); }
X bool dv_lt(const uint8_t *s, u4 n, const uint8_t *t, u4 m) { return T::lt(s, n, t, m); }
X bool dv_le(const uint8_t *s, u4 n, const uint8_t *t, u4 m) { return T::le(s, n, t, m); }
X bool dv_eq(const uint8_t *s, u4 n, const uint8_t *t, u4 m) { return T::eq(s, n, t, m); }
X u4 dv_elem_count(const St *s) { return T::elem_count(s); }
X u4 dv_size_grade(const St *s) { return T::size_grade(s); }
X u4 dv_invalid_bits(const St *s) { return T::invalid_bits(s); }
X bool dv_is_partial(const St *s) { return T::is_partial(s); }
X void dv_set_elem_count(St *s, i4 v) { T::set_elem_count(s, v); }
X void dv_update_elem_count(St *s, i4 v) { T::update_elem_count(s, v); }
X void dv_set_size_grade(St *s, u4 v) { T::set_size_grade(s, v); }
X void dv_set_invalid_bits(St *s, u4 v) { T::set_invalid_bits(s, v); }
X void dv_set_partial(St *s, bool v) { T::set_partial(s, v); }
X u4 dv_word_count(u4 n, u4 w) { return T::word_count(n, w); }
X U dv_get_slot(const D *d, const St *s, u4 p) { return T::get_slot(d, s, p); }
X void dv_set_slot(D *d, St *s, u4 p, U v) { T::set_slot(d, s, p, v); }
X void dv_set_slot_w(D *d, St *s, u4 p, U v, u4 w) { T::set_slot_w(d, s, p, v, w); }
X void dv_shift_slots_right(D *d, const St *s, u4 l, u4 r, u4 k) { T::shift_slots_right(d, s, l, r, k); }
X void dv_shift_slots_left(D *d, const St *s, u4 l, u4 r, u4 k) { T::shift_slots_left(d, s, l, r, k); }
X void dv_shift_runends_right(D *d, const St *s, u4 l, u4 r, u4 k) { T::shift_runends_right(d, s, l, r, k); }
X void dv_shift_runends_left(D *d, const St *s, u4 l, u4 r, u4 k) { T::shift_runends_left(d, s, l, r, k); }
X u4 dv_rank(const D *d, const St *s, u4 p) { return T::rank(d, s, p); }
X u4 dv_select(const D *d, const St *s, u4 r) { return T::select(d, s, r); }
X i4 dv_next_occ(const D *d, const St *s, u4 p) { return T::next_occ(d, s, p); }
X i4 dv_prev_occ(const D *d, const St *s, u4 p) { return T::prev_occ(d, s, p); }
X i4 dv_next_run(const D *d, const St *s, u4 p) { return T::next_run(d, s, p); }
X i4 dv_prev_run(const D *d, const St *s, u4 p) { return T::prev_run(d, s, p); }
X i4 dv_mapped_pos(const D *d, u4 i, u4 g, U sc) { return T::mapped_pos(d, i, g, sc); }
X i4 dv_empty_after(const D *d, const St *s, u4 p) { return T::empty_after(d, s, p); }
X i4 dv_empty_before(const D *d, const St *s, u4 p) { return T::empty_before(d, s, p); }
X U dv_extract(const D *d, const uint8_t *s, u4 n, u4 sh, u4 ig, u4 im, U msb) { return T::extract(d, s, n, sh, ig, im, msb); }
X void dv_sii(const D *d, const uint8_t *s, u4 n, const uint8_t *t, u4 m, u4 *out) { T::sii(d, s, n, t, m, out); }
X bool dv_point(const D *d, St *s, U k, u4 ti) { return T::point(d, s, k, ti); }
X bool dv_range(const D *d, St *s, U l, U r, u4 ti) { return T::range(d, s, l, r, ti); }
X u4 dv_longest(const D *d, St *s, U k, u4 ti) { return T::longest(d, s, k, ti); }
X u4 dv_expanded_len(D *d, const U *list, u4 n, u4 im, u4 sh, U lo, U hi, u4 *ex) { return T::expanded_len(d, list, n, im, sh, lo, hi, ex); }
X void dv_update_list_delete(D *d, u4 sh, u4 ig, u4 im, const uint8_t *s, u4 n, const uint8_t *t, u4 m, U *list, u4 len) { T::update_list_delete(d, sh, ig, im, s, n, t, m, list, len); }
X u4 dv_ser_meta(const D *d, char *out) { return T::ser_meta(d, out); }
X u4 dv_deser_meta(D *d, char *in) { return T::deser_meta(d, in); }
X u4 dv_ser_store(const D *d, char *out, const St *s) { return T::ser_store(d, out, s); }
X u4 dv_infix_list(const D *d, const St *s, U *res) { return T::infix_list(d, s, res); }
X void dv_shrink_store(D *d, St *s, u4 w) { T::shrink_store(d, s, w); }
// the integer-optimized and general filters, for the query and wrapper contracts
X bool dv_range_int(const Diva<true> *d, const uint8_t *l, u4 ln, const uint8_t *r, u4 rn) { return d->RangeQuery(l, ln, r, rn); }
X bool dv_point_int(const Diva<true> *d, const uint8_t *k, u4 n) { return d->PointQuery(k, n); }
X bool dv_range_gen(const D *d, const uint8_t *l, u4 ln, const uint8_t *r, u4 rn) { return d->RangeQuery(l, ln, r, rn); }
X bool dv_point_gen(const D *d, const uint8_t *k, u4 n) { return d->PointQuery(k, n); }
X void dv_simple_gen(Diva<false> *d, const uint8_t *s, u4 n) { T::simple_gen(d, s, n); }
X void dv_simple_int(Diva<true> *d, const uint8_t *s, u4 n) { T::simple_int(d, s, n); }
X void dv_delete_gen(Diva<false> *d, const uint8_t *s, u4 n) { d->Delete(s, n); }
X void dv_delete_int(Diva<true> *d, const uint8_t *s, u4 n) { d->Delete(s, n); }
X u4 dv_meta_gen(const D *a, D *b, char *buf) { return T::meta_round_trip(a, b, buf); }
X u4 dv_meta_int(const Diva<true> *a, Diva<true> *b, char *buf) { return T::meta_round_trip_int(a, b, buf); }
#define U64WRAP(N, O) \
X void dv_u64_insert_##N(Diva<O> *d, U k) { d->Insert(k); } X void dv_u64_delete_##N(Diva<O> *d, U k) { d->Delete(k); } \
X bool dv_u64_point_##N(const Diva<O> *d, U k) { return d->PointQuery(k); } X bool dv_u64_range_##N(const Diva<O> *d, U l, U r) { return d->RangeQuery(l, r); } X void dv_u64_bulk_##N(Diva<O> *d, U k) { d->BulkLoadStreaming(k); } \
X void dv_sv_insert_##N(Diva<O> *d, const char *k, U n) { d->Insert(std::string_view(k, n)); } X void dv_sv_delete_##N(Diva<O> *d, const char *k, U n) { d->Delete(std::string_view(k, n)); } \
X bool dv_sv_point_##N(const Diva<O> *d, const char *k, U n) { return d->PointQuery(std::string_view(k, n)); } X bool dv_sv_range_##N(const Diva<O> *d, const char *l, U n, const char *r, U m) { return d->RangeQuery(std::string_view(l, n), std::string_view(r, m)); } X void dv_sv_bulk_##N(Diva<O> *d, const char *k, U n) { d->BulkLoadStreaming(std::string_view(k, n)); }
U64WRAP(gen, false) U64WRAP(int, true)
