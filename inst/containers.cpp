// Representative uses of the checked containers through their public interface, for every integral index type.  Only
// compiled, never run: rule C01 interprets these functions (and the container code they use) abstractly.
#include <kt_utils/Args.h>
#include <kt_utils/BlockRange.h>
#include <kt_utils/EnumList.h>
#include <kt_utils/EnumMap.h>

namespace ktv {
enum class Plain : kanji_tools::Enum::Size { A, B, C };
enum class One : kanji_tools::Enum::Size { A };
enum class Opt : kanji_tools::Enum::Size { A, B, C, None };
enum class Solo : kanji_tools::Enum::Size { A, None };
} // namespace ktv

namespace kanji_tools {
template <> inline constexpr auto is_enumlist<ktv::Plain>{true};
template <> inline constexpr auto is_enumlist<ktv::One>{true};
template <> inline constexpr auto is_enumlist_with_none<ktv::Opt>{true};
template <> inline constexpr auto is_enumlist_with_none<ktv::Solo>{true};
} // namespace kanji_tools

namespace ktv {
using namespace kanji_tools;
using Off = std::ptrdiff_t;
const auto plain{BaseEnumList<Plain>::create("A", "B", "C")};
const auto one{BaseEnumList<One>::create("A")};
const auto opt{BaseEnumList<Opt>::create("A", "B", "C")};
const auto solo{BaseEnumList<Solo>::create("A")};

// element of a list by position
template <typename L, typename I> auto listAt(const L& l, I i) { return to_underlying(l[i]); }
template <typename L, typename T> auto listName(const L& l, T x) { return &l.toString(x); }

// moving and reading iterators: k is the starting position
template <typename L> auto at(const L& l, int k) {
  auto a{l.begin()};
  for (int j{}; j < k; ++j) ++a;
  return a;
}
template <typename L> Off itAt(const L& l, int k) { return at(l, k) - l.begin(); }
template <typename L> Off itEnd(const L& l) { return l.end() - l.begin(); }
template <typename L> Off itAdd(const L& l, int k, Off i) { auto a{at(l, k)}; a += i; return a - l.begin(); }
template <typename L> Off itSub(const L& l, int k, Off i) { auto a{at(l, k)}; a -= i; return a - l.begin(); }
template <typename L> Off itPlus(const L& l, int k, Off i) { const auto a{at(l, k)}; const auto b{a + i}; return b - l.begin(); }
template <typename L> Off itMinus(const L& l, int k, Off i) { const auto a{at(l, k)}; const auto b{a - i}; return b - l.begin(); }
template <typename L> Off itPlusKeeps(const L& l, int k, Off i) { const auto a{at(l, k)}; static_cast<void>(a + i); return a - l.begin(); }
template <typename L> Off itInc(const L& l, int k) { auto a{at(l, k)}; auto& b{++a}; return b - l.begin(); }
template <typename L> Off itDec(const L& l, int k) { auto a{at(l, k)}; auto& b{--a}; return b - l.begin(); }
template <typename L> Off itIncPost(const L& l, int k) { auto a{at(l, k)}; const auto b{a++}; return b - l.begin(); }
template <typename L> Off itIncPosted(const L& l, int k) { auto a{at(l, k)}; static_cast<void>(a++); return a - l.begin(); }
template <typename L> Off itDecPost(const L& l, int k) { auto a{at(l, k)}; const auto b{a--}; return b - l.begin(); }
template <typename L> Off itDecPosted(const L& l, int k) { auto a{at(l, k)}; static_cast<void>(a--); return a - l.begin(); }
template <typename L> Off itDiff(const L& l, int j, int k) { return at(l, j) - at(l, k); }
template <typename L> bool itLess(const L& l, int j, int k) { return at(l, j) < at(l, k); }
template <typename L> bool itLessEq(const L& l, int j, int k) { return at(l, j) <= at(l, k); }
template <typename L> bool itMore(const L& l, int j, int k) { return at(l, j) > at(l, k); }
template <typename L> bool itMoreEq(const L& l, int j, int k) { return at(l, j) >= at(l, k); }
template <typename L> bool itSame(const L& l, int j, int k) { return at(l, j) == at(l, k); }
template <typename L> bool itOther(const L& l, int j, int k) { return at(l, j) != at(l, k); }
template <typename L> auto itGet(const L& l, int k) { return to_underlying(*at(l, k)); }
template <typename L> auto itIndex(const L& l, int k, Off i) { return to_underlying(at(l, k)[i]); }
template <typename L> Off itFresh(const L& l) { const decltype(l.begin()) a; return a - l.begin(); }

// elements of maps, by address
template <typename M, typename T> auto mapAt(M& m, T x) { return &m[x]; }
template <typename M, typename T> auto mapConstAt(const M& m, T x) { return &m[x]; }
template <typename M> auto mapGet(const M& m, int k) { return &*at(m, k); }
template <typename M> bool mapMixed(const M& l, const M& m) { return l.begin() == m.begin(); }
template <typename M> bool mapMixedLess(const M& l, const M& m) { return l.begin() < m.begin(); }
template <typename M> bool mapMixedMoreEq(const M& l, const M& m) { return l.begin() >= m.begin(); }
template <typename M> Off mapMixedDiff(const M& l, const M& m) { return l.begin() - m.begin(); }
template <typename M> auto mapFresh(const M& l) { const decltype(l.begin()) a; return &*a; }

template <typename R> auto rangeAt(const R& r, size_t i) { return r[i]; }

auto argsSize(Args::Size n, Args::List l) { const Args a{n, l}; return a.size(); }
auto argsInt(int n, Args::List l) { const Args a{n, l}; return a.size(); }
auto argsAt(Args::Size n, Args::List l, Args::Size i) { const Args a{n, l}; return a[i]; }

template <typename L> void iterate(const L& l) {
  static_cast<void>(itAt(l, 0)); static_cast<void>(itEnd(l)); static_cast<void>(itAdd(l, 0, 0)); static_cast<void>(itSub(l, 0, 0));
  static_cast<void>(itPlus(l, 0, 0)); static_cast<void>(itMinus(l, 0, 0)); static_cast<void>(itPlusKeeps(l, 0, 0));
  static_cast<void>(itInc(l, 0)); static_cast<void>(itDec(l, 0)); static_cast<void>(itIncPost(l, 0)); static_cast<void>(itIncPosted(l, 0));
  static_cast<void>(itDecPost(l, 0)); static_cast<void>(itDecPosted(l, 0)); static_cast<void>(itDiff(l, 0, 0));
  static_cast<void>(itLess(l, 0, 0)); static_cast<void>(itLessEq(l, 0, 0)); static_cast<void>(itMore(l, 0, 0));
  static_cast<void>(itMoreEq(l, 0, 0)); static_cast<void>(itSame(l, 0, 0)); static_cast<void>(itOther(l, 0, 0));
}

template <typename L, typename T, typename... I> void list(const L& l, T x, I... i) {
  (static_cast<void>(listAt(l, i)), ...);
  static_cast<void>(listName(l, x)); static_cast<void>(itGet(l, 0)); static_cast<void>(itIndex(l, 0, 0)); static_cast<void>(itFresh(l));
  iterate(l);
}
template <typename L, typename T> void allList(const L& l, T x) {
  list(l, x, 0, 0U, 0L, 0UL, 0LL, 0ULL, static_cast<short>(0), static_cast<unsigned short>(0), static_cast<signed char>(0),
      static_cast<unsigned char>(0), char{});
}
template <typename T> void allMap(T x) {
  EnumMap<T, int> m;
  const auto& c{m};
  static_cast<void>(mapAt(m, x)); static_cast<void>(mapConstAt(c, x)); static_cast<void>(mapGet(c, 0)); static_cast<void>(mapMixed(c, c));
  static_cast<void>(mapMixedLess(c, c)); static_cast<void>(mapMixedMoreEq(c, c)); static_cast<void>(mapMixedDiff(c, c));
  static_cast<void>(mapFresh(c));
  iterate(c);
}
void all() {
  allList(plain, Plain::A); allList(one, One::A); allList(opt, Opt::A); allList(solo, Solo::A);
  allMap(Opt::A); allMap(Solo::A);
  static_cast<void>(rangeAt(KanjiRange, 0)); static_cast<void>(rangeAt(KanaRange, 0)); static_cast<void>(rangeAt(HiraganaRange, 0));
}
} // namespace ktv
