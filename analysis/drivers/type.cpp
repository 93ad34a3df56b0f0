// ACCESS CONTROL is on here. Programs the types must refuse, and programs they must accept: every line is decided by overload resolution
#include "vdrv.h"
#include "Primitives/Nullable.h"
#include "Primitives/Function.h"
#include "Primitives/Variant.h"
#include "Primitives/Tuple.h"
#include "Primitives/Event.h"
#include "Primitives/Pointer.h"
#include "Collections/Dictionary.h"
#include "Collections/Operation.h"
#include "Collections/PartialOrdering.h"
#include "GlobalStorage.h"
#include "Strings/String.h"
#include "Strings/Conversion.h"
using namespace vl;
using namespace vl::collections;
#define DRV extern "C" void
#define YES(c) v_require((c), 5)
#define NO(c) v_require(!(c), 5)
#define FIN v_final(); }
template<typename T> static T& lv();
template<typename T> constexpr bool copies = std::is_copy_constructible_v<T> || std::is_copy_assignable_v<T>;
template<typename T> constexpr bool moves = std::is_move_constructible_v<T> && std::is_move_assignable_v<T>;
template<typename T> constexpr bool moved = std::is_move_constructible_v<T> || std::is_move_assignable_v<T>;
template<typename F, typename T> constexpr bool makes = std::is_constructible_v<T, F>;
template<typename F, typename T> constexpr bool turns = std::is_convertible_v<F, T>;
template<typename F, typename T> constexpr bool assigns = std::is_assignable_v<T&, F>;
struct B { virtual ~B() = default; }; struct D : B {}; struct X { virtual ~X() = default; };
struct CB { void Release(); }; struct CD : CB {};
// ---- owners that must not be duplicated
DRV drv_nocopy() { {
	NO((copies<Array<E>>));
	NO((copies<List<E>>));
	NO((copies<Dictionary<E, E>>));
	NO((copies<Group<E, E>>));
	NO((copies<Array<int>>));
	NO((copies<List<int>>));
	NO((copies<Dictionary<int, int>>));
	NO((copies<Group<int, int>>));
	NO((copies<Event<void(int)>>));
	NO((moved<Event<void(int)>>));
	NO((copies<PushOnlyAllocator<int>>));
	NO((moved<PushOnlyAllocator<int>>));
	NO((copies<ByteObjectMap<int>>));
	NO((moved<ByteObjectMap<int>>));
	NO((copies<GlobalStorage>));
	NO((moved<GlobalStorage>));
	NO((copies<Interface>));
	NO((moved<Interface>));
	NO((copies<IEnumerable<E>>));
	NO((copies<IEnumerator<E>>));
	NO((moved<IEnumerator<E>>));
	NO((copies<Tuple<K, E>>));
	NO((copies<Pair<K, E>>));
	} FIN
DRV drv_canmove() { {
	YES((moves<Array<E>>));
	YES((moves<List<E>>));
	YES((moves<SortedList<E>>));
	YES((moves<Dictionary<E, E>>));
	YES((moves<Group<E, E>>));
	YES((moves<Nullable<K>>));
	YES((moves<Tuple<K, E>>));
	YES((moves<Pair<K, E>>));
	YES((copies<Ptr<B>> && moves<Ptr<B>>));
	YES((copies<ComPtr<CB>> && moves<ComPtr<CB>>));
	YES((copies<WString> && moves<WString>));
	YES((copies<Func<void()>> && moves<Func<void()>>));
	YES((copies<LazyList<E>> && moves<LazyList<E>>));
	YES((copies<Variant<E, E2>> && moves<Variant<E, E2>>));
	YES((copies<Nullable<E>>));
	YES((copies<Tuple<E, E2>>));
	YES((copies<Pair<E, E2>>));
	} FIN
// ---- handles: explicit from raw pointers, only towards bases
DRV drv_handle() { {
	NO((turns<B*, Ptr<B>>));
	YES((makes<B*, Ptr<B>>));
	NO((turns<D*, Ptr<B>>));
	NO((makes<void*, Ptr<B>>));
	NO((makes<B*, Ptr<D>>));
	NO((makes<X*, Ptr<B>>));
	NO((makes<const B*, Ptr<B>>));
	NO((turns<Ptr<B>, B*>));
	YES((turns<Ptr<D>, Ptr<B>>));
	YES((turns<const Ptr<D>&, Ptr<B>>));
	NO((makes<Ptr<B>, Ptr<D>>));
	NO((makes<const Ptr<B>&, Ptr<D>>));
	NO((makes<Ptr<X>, Ptr<B>>));
	NO((makes<const Ptr<X>&, Ptr<B>>));
	NO((makes<Ptr<const B>, Ptr<B>>));
	NO((assigns<Ptr<B>, Ptr<D>>));
	NO((assigns<const Ptr<B>&, Ptr<D>>));
	NO((assigns<Ptr<X>, Ptr<B>>));
	NO((assigns<B*, Ptr<B>>));
	YES((assigns<Ptr<D>, Ptr<B>>));
	YES((assigns<std::nullptr_t, Ptr<B>>));
	YES((turns<std::nullptr_t, Ptr<B>>));
	NO((makes<ComPtr<CB>, ComPtr<CD>>));
	NO((assigns<ComPtr<CB>, ComPtr<CD>>));
	NO((makes<CB*, ComPtr<CD>>));
	} FIN
// ---- read-only views stay read-only
template<typename C, typename V> constexpr bool sets_by_index = requires(C& c, V v) { c[0] = v; };
template<typename C, typename K, typename V> constexpr bool sets_by_key = requires(C& c, K k, V v) { c[k] = v; };
template<typename C, typename V> constexpr bool sets_by_get = requires(C& c, V v) { c.Get(0) = v; };
template<typename C, typename V> constexpr bool sets = requires(C& c, V v) { c.Set(0, v); };
template<typename C, typename V> constexpr bool adds = requires(C& c, V v) { c.Add(v); };
template<typename C, typename V> constexpr bool adds2 = requires(C& c, V v) { c.Add(v, v); };
template<typename C, typename V> constexpr bool inserts = requires(C& c, V v) { c.Insert(0, v); };
template<typename C> constexpr bool clears = requires(C& c) { c.Clear(); };
template<typename C, typename V> constexpr bool removes = requires(C& c, V v) { c.Remove(v); };
template<typename C> constexpr bool removes_at = requires(C& c) { c.RemoveAt(0); };
template<typename C> constexpr bool resizes = requires(C& c) { c.Resize(1); };
template<typename C, typename V> constexpr bool ranged = requires(C& c, V v) { c.begin(); *c.begin() = v; };
template<typename C> using KeysOf = std::remove_reference_t<decltype(lv<C>().Keys())>;
template<typename C> using ValuesOf = std::remove_reference_t<decltype(lv<C>().Values())>;
template<typename C> using ItemOf = std::remove_reference_t<decltype(lv<C>()[lv<const E>()])>;
template<typename C> using ByIndexOf = std::remove_reference_t<decltype(lv<C>().GetByIndex(0))>;
template<typename C> constexpr bool frozen = !sets_by_index<C, E> && !sets_by_get<C, E> && !sets<C, E> && !adds<C, E> && !adds2<C, E> && !inserts<C, E> && !clears<C> && !removes<C, E> && !removes_at<C> && !resizes<C>;
DRV drv_readonly() { {
	YES((frozen<const List<E>>));
	YES((frozen<const Array<E>>));
	YES((frozen<const SortedList<E>>));
	YES((frozen<const Dictionary<E, E>>));
	YES((frozen<const Group<E, E>>));
	YES((frozen<const List<int>>));
	YES((frozen<const Array<int>>));
	NO((sets_by_key<const Dictionary<E, E>, E, E>));
	NO((ranged<const List<E>, E>));
	NO((ranged<const Array<E>, E>));
	// an element of a sorted list, a key, a value of a group cannot be changed in place
	NO((sets_by_index<SortedList<E>, E>));
	NO((sets_by_get<SortedList<E>, E>));
	NO((sets<SortedList<E>, E>));
	NO((inserts<SortedList<E>, E>));
	NO((ranged<SortedList<E>, E>));
	NO((sets_by_index<SortedList<int>, int>));
	NO((ranged<SortedList<int>, int>));
	YES((frozen<KeysOf<Dictionary<E, E>>>));
	YES((frozen<ValuesOf<Dictionary<E, E>>>));
	YES((frozen<KeysOf<Group<E, E>>>));
	YES((frozen<ItemOf<Group<E, E>>>));
	YES((frozen<ByIndexOf<Group<E, E>>>));
	YES((frozen<KeysOf<Dictionary<int, int>>>));
	// and what is meant to be changed can be
	YES((sets_by_index<List<E>, E>));
	YES((sets_by_index<Array<E>, E>));
	YES((sets_by_index<List<int>, int>));
	YES((sets_by_index<Array<int>, int>));
	YES((sets<List<E>, E>));
	YES((sets<Array<E>, E>));
	YES((adds<List<E>, E>));
	YES((adds<SortedList<E>, E>));
	YES((adds2<Dictionary<E, E>, E>));
	YES((adds2<Group<E, E>, E>));
	// arrays have a fixed length, strings are values
	NO((adds<Array<E>, E>));
	NO((inserts<Array<E>, E>));
	NO((removes_at<Array<E>>));
	NO((sets_by_index<WString, wchar_t>));
	NO((sets_by_index<const WString, wchar_t>));
	NO((std::is_assignable_v<decltype(*lv<WString>().Buffer()), wchar_t>));
	NO((std::is_assignable_v<decltype(*lv<AString>().Buffer()), char>));
	NO((std::is_assignable_v<decltype(*lv<U8String>().Buffer()), char8_t>));
	NO((std::is_assignable_v<decltype(lv<IEnumerator<E>>().Current()), E>));
	} FIN
// ---- exactly the alternatives and the callables that fit
template<typename V, typename T> constexpr bool gets = requires(V& v) { v.template Get<T>(); };
template<typename V, typename T> constexpr bool trygets = requires(V& v) { v.template TryGet<T>(); };
DRV drv_variant() { {
	typedef Variant<E, E2> EE;
	YES((makes<E, EE>));
	YES((makes<E2, EE>));
	YES((assigns<E, EE>));
	YES((assigns<const E2&, EE>));
	NO((gets<EE, V>));
	YES((gets<EE, E>));
	YES((gets<EE, E2>));
	NO((trygets<EE, V>));
	YES((trygets<EE, E2>));
	NO((std::is_assignable_v<decltype(lv<const EE>().Get<E>()), E>));
	NO((std::is_assignable_v<decltype(*lv<const EE>().TryGet<E>()), E>));
	YES((std::is_assignable_v<decltype(lv<EE>().Get<E>()), E>));
	} FIN
struct Int { int operator()(int) const; }; struct Ptrs { void operator()(B*); }; struct Refs { void operator()(E&); }; struct Big { void operator()(int, int); }; struct Str { WString operator()(int); };
DRV drv_func() { {
	YES((makes<Int, Func<int(int)>>));
	YES((makes<Int, Func<void(int)>>));
	YES((makes<Ptrs, Func<void(D*)>>));
	NO((makes<Ptrs, Func<void(X*)>>));
	NO((makes<Int, Func<int(B*)>>));
	NO((makes<Int, Func<int()>>));
	NO((makes<Big, Func<void(int)>>));
	NO((makes<Int, Func<B*(int)>>));
	NO((makes<Str, Func<int(int)>>));
	NO((makes<Refs, Func<void(const E&)>>));
	NO((makes<int, Func<void()>>));
	NO((makes<E, Func<void()>>));
	} FIN
// ---- no character type is taken for another, no number for a string
DRV drv_string() { {
	NO((makes<AString, WString>));
	NO((makes<WString, AString>));
	NO((makes<U8String, AString>));
	NO((makes<U16String, WString>));
	NO((makes<U32String, WString>));
	NO((assigns<AString, WString>));
	NO((assigns<U16String, U32String>));
	NO((makes<int, WString>));
	NO((makes<const char*, WString>));
	NO((makes<const wchar_t*, AString>));
	} FIN
// ---- nullable and ordering categories: the weakest of the parts
DRV drv_order() { {
	typedef std::strong_ordering S; typedef std::weak_ordering W; typedef std::partial_ordering P;
	YES((std::is_same_v<OrderingOf<S, W>, W>));
	YES((std::is_same_v<OrderingOf<W, S>, W>));
	YES((std::is_same_v<OrderingOf<P, S>, P>));
	YES((std::is_same_v<OrderingOf<S, P>, P>));
	YES((std::is_same_v<OrderingOf<W, P>, P>));
	YES((std::is_same_v<OrderingOf<S, W, P>, P>));
	YES((std::is_same_v<OrderingOf<W, W>, W>));
	YES((std::is_same_v<OrderingOf<S, S>, S>));
	YES((std::is_same_v<OrderingOf<S>, S>));
	} FIN
