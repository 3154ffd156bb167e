// partition, filter_if, concat
#pragma once
#include "blocks.h"

namespace bm {

struct Abstract {
    virtual ~Abstract() = default;
    virtual int f() = 0;
};
struct Incomplete;
template<class T>
struct is_small : std::bool_constant<(sizeof(T) <= 4)> {};
template<class T>
struct is_never : std::false_type {};
template<class T>
struct is_always : std::true_type {};
template<class T>
struct is_cv : std::bool_constant<std::is_const_v<T> || std::is_volatile_v<T>> {};

// a predicate of the user's own
template<bool Negated>
struct OwnPredicate {
    template<class T>
    constexpr bool operator()(pigro::type_<T>) const { return (std::is_reference_v<T> || std::is_pointer_v<T>) != Negated; }
    constexpr auto operator!() const { return OwnPredicate<!Negated>{}; }
};

using Names = std::vector<std::string>;
template<class T>
struct wrapped_name {};
template<class T>
std::string exact() { // keeps cv and references
    return type_name<wrapped_name<T>>() + "/" + std::to_string(typeid(wrapped_name<T>).hash_code());
}
template<class... T>
Names names(pigro::typelist<T...>) { return { exact<T>()... }; }
template<class... T>
Names names(list<T...>) { return { exact<T>()... }; }

inline std::string show(const Names &n) {
    std::string s = "<";
    for (auto &x : n) s += (s.size() > 1 ? ", " : "") + x.substr(0, x.find('/'));
    return s + ">";
}
inline Names operator+(Names a, const Names &b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
inline void compare(const std::string &what, const Names &got, const Names &want, bool nontrivial) {
    mon::stat("checks");
    mon::stat("types_compared", static_cast<long>(want.size()));
    if (got != want) mon::violation(mon::format("%s yields %s instead of %s", what.c_str(), show(got).c_str(), show(want).c_str()));
    mon::evaluated(hash(what + show(want)), nontrivial);
}

// the oracle: a loop over the names
inline std::pair<Names, Names> split(const Names &all, const std::vector<bool> &holds) {
    std::pair<Names, Names> r;
    for (std::size_t i = 0; i < all.size(); ++i) (holds[i] ? r.first : r.second).push_back(all[i]);
    return r;
}

template<template<class> class Trait, class... T>
void partition_case(const char *trait) {
    const Names all = names(list<T...>{});
    const auto [yes, no] = split(all, { static_cast<bool>(Trait<T>::value)... });
    const bool nt = !yes.empty() && !no.empty();
    const std::string n = std::string(trait) + " of " + show(all);
    using TL = pigro::typelist<T...>;
    compare("partition_t by " + n, names(pigro::partition_t<Trait, T...>{}), yes + no, nt);
    compare("partition by " + n, names(pigro::partition(TL{}, pigro::predicate<Trait>)), yes + no, nt);
    compare("partition by not " + n, names(pigro::partition(TL{}, !pigro::predicate<Trait>)), no + yes, nt);
    compare("partition by not not " + n, names(pigro::partition(TL{}, !!pigro::predicate<Trait>)), yes + no, nt);
    compare("filter_if by " + n, names(pigro::filter_if(TL{}, pigro::predicate<Trait>)), yes, nt);
    compare("filter_if by not " + n, names(pigro::filter_if(TL{}, !pigro::predicate<Trait>)), no, nt);
    compare("filter_if by a lambda: " + n, names(pigro::filter_if(TL{}, [](auto t) { return Trait<typename decltype(t)::type>::value; })), yes, nt);
    const auto [a, b] = split(all, { OwnPredicate<false>{}(pigro::type_c<T>)... });
    compare("partition by an own predicate: " + n, names(pigro::partition(TL{}, OwnPredicate<false>{})), a + b, nt);
    // partitioning is idempotent
    compare("partition twice by " + n, names(pigro::partition(pigro::partition(TL{}, pigro::predicate<Trait>), pigro::predicate<Trait>)), yes + no, nt);
    CHECK((pigro::partition(TL{}, pigro::predicate<Trait>) == pigro::partition_t<Trait, T...>{}), "typelists do not compare equal to themselves");
    if (nt) mon::stat("both_groups");
    mon::sample("partition by " + n);
}

template<class... L>
void concat_case(L... lists) {
    const Names want = (Names{} + ... + names(lists));
    compare("concat of " + std::to_string(sizeof...(L)) + " lists to " + show(want), names(pigro::concat(lists...)), want, sizeof...(L) > 1);
    compare("+ of " + std::to_string(sizeof...(L)) + " lists to " + show(want), names((pigro::typelist<>{} + ... + lists)), want, sizeof...(L) > 1);
}

inline void partition_facts() {
    using namespace pigro;
    compare("concat()", names(concat()), {}, false);
    compare("filter_if of nothing", names(filter_if(typelist<>{}, predicate<std::is_const>)), {}, false);
    compare("partition of nothing", names(partition(typelist<>{}, predicate<std::is_const>)), {}, false);
    static_assert(std::is_same_v<decltype(type_c<const int &>), const type_<const int &>>);
}

} // namespace bm
