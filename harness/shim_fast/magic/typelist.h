// Stand-in for magic/typelist.h that keeps only some of the element types in a type
// list, to cut the compile time of the template-heavy grid/grid.cpp.  The check of the
// element types is built without it.
#ifndef MAGIC_TYPELIST_H
#define MAGIC_TYPELIST_H
#include "magic/nulltype.h"
namespace types { template<typename T> class BasicType; template<typename T> class ArrayType; template<typename T> class StructType; }
namespace magic
{
template <class T, class U> struct Typelist { typedef T Head; typedef U Tail; };
template<class T> struct VerifKeep { static const bool value = false; };
template<> struct VerifKeep<types::BasicType<float> > { static const bool value = true; };
template<> struct VerifKeep<types::BasicType<int> > { static const bool value = true; };
template<> struct VerifKeep<types::ArrayType<int> > { static const bool value = true; };
template<> struct VerifKeep<types::StructType<int> > { static const bool value = true; };
template<bool K, class T, class Tail> struct VerifCons { typedef Typelist<T, Tail> result; };
template<class T, class Tail> struct VerifCons<false, T, Tail> { typedef Tail result; };
template<typename... Ts> struct MakeTypelist;
template<> struct MakeTypelist<> { typedef NullType result; };
template<typename T, typename... Ts> struct MakeTypelist<T, Ts...>
{
	typedef typename VerifCons<VerifKeep<T>::value, T, typename MakeTypelist<Ts...>::result>::result result;
};
}
#endif
