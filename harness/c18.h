// enumerate_pack and enumerate_n
#pragma once
#include "c14.h"

namespace bm {

struct ItemSeen {
    std::size_t index;
    bool reference;
    Seen value;
};
inline std::vector<ItemSeen> &items() {
    static thread_local std::vector<ItemSeen> v;
    return v;
}
inline long &item_calls() {
    static thread_local long n;
    return n;
}
template<std::size_t>
struct constant {};
template<class I>
ItemSeen see_item(I &&i) {
    using Item = std::remove_cvref_t<I>;
    using V = decltype(i.value);
    constant<Item::index> usable_in_types; // the index is a compile-time constant
    (void) usable_in_types;
    return { static_cast<std::size_t>(i.index), std::is_reference_v<V>, see(static_cast<V &&>(i.value)) };
}
// how the callable takes its items, and what it returns
struct TakesRvalues {
    template<class... I>
    tok_t operator()(I &&...i) const {
        ++item_calls();
        items() = { see_item(i)... };
        return static_cast<tok_t>(100 + sizeof...(I));
    }
};
struct TakesConst {
    template<class... I>
    tok_t operator()(const I &...i) const {
        ++item_calls();
        items() = { see_item(i)... };
        return static_cast<tok_t>(100 + sizeof...(I));
    }
};
struct TakesMutable {
    long n = 0;
    template<class... I>
    tok_t operator()(I &&...i) {
        ++n;
        ++item_calls();
        items() = { see_item(i)... };
        return static_cast<tok_t>(100 + sizeof...(I));
    }
};
struct GivesVoid {
    template<class... I>
    void operator()(I &&...i) const {
        ++item_calls();
        items() = { see_item(i)... };
    }
};
struct GivesMoveOnly {
    template<class... I>
    MoveOnly operator()(I &&...i) const {
        ++item_calls();
        items() = { see_item(i)... };
        return MoveOnly{ static_cast<int>(sizeof...(I)) };
    }
};
struct GivesRef {
    static inline std::string target = "the object referred to";
    template<class... I>
    std::string &operator()(I &&...i) const {
        ++item_calls();
        items() = { see_item(i)... };
        return target;
    }
};

template<class R>
bool right_result(R &r, std::size_t n, std::string &why) {
    if constexpr (std::is_same_v<std::remove_cvref_t<R>, tok_t>)
        return why = "another result", r == static_cast<tok_t>(100 + n);
    else if constexpr (std::is_same_v<std::remove_cvref_t<R>, MoveOnly>)
        return why = "another result", dec(r) == static_cast<tok_t>(n);
    else
        return why = "a result that is not the value returned", r == GivesRef::target && address(r) != address(GivesRef::target);
}

template<class F, class... A>
void pack_case(const char *name) {
    mon::Rng rng{ mon::mix(mon::state().seed, hash(name)) };
    Judge j{ name };
    constexpr auto n = sizeof...(A);
    const long live = static_cast<long>(registry().live.size());
    for (int i = 0; i < 12 * mon::state().scale && j.ok; ++i) {
        Args<A...> args{ rng };
        auto want = args.wants();
        F f{};
        auto judge = [&] {
            if (item_calls() != 1) j.fail(mon::format("the callable was called %ld times", item_calls()));
            if (items().size() != n) j.fail(mon::format("%zu items for %zu arguments", items().size(), n));
            for (std::size_t k = 0; k < n && j.ok; ++k) {
                std::string why;
                if (items()[k].index != k) j.fail(mon::format("item %zu has index %zu", k, items()[k].index));
                if (!items()[k].reference) j.fail(mon::format("the value of item %zu is not a reference", k));
                if (!same({ items()[k].value }, { want[k] }, why)) j.fail(mon::format("item %zu: %s", k, why.c_str()));
            }
            mon::stat("items", static_cast<long>(items().size()));
            mon::stat("checks", 3);
        };
        auto go = [&](auto &&g) {
            const long c0 = Obj::copies, m0 = Obj::moves;
            item_calls() = 0, items().clear();
            auto call = [&](auto &&...a) -> decltype(auto) { return pigro::enumerate_pack(static_cast<decltype(g)>(g), static_cast<decltype(a)>(a)...); };
            using R = decltype(args.call(call));
            if constexpr (std::is_void_v<R>)
                args.call(call);
            else {
                auto &&r = args.call(call);
                std::string why;
                if (std::is_reference_v<R>) j.fail("the result is not returned by value");
                if (!right_result(r, n, why)) j.fail(why);
            }
            if (Obj::copies != c0 || Obj::moves != m0) j.fail("arguments are copied or moved");
            judge();
        };
        go(f);
        if constexpr (std::is_same_v<F, TakesMutable>) {
            if (f.n != 1) j.fail("the callable given is not the one called");
        } else
            go(std::as_const(f));
        go(F{});
        if (i == 0 && j.ok) mon::sample(mon::format("%s: %zu items", name, items().size()));
        mon::evaluated(hash(hash(name), want), n > 0);
    }
    if (static_cast<long>(registry().live.size()) != live) j.fail("tracked objects are not destroyed exactly once");
}

struct Refuse { // neither copyable nor const
    std::unique_ptr<int> p = std::make_unique<int>(0);
    template<class... I>
    std::unique_ptr<int> operator()(I &&...i) { return std::make_unique<int>(static_cast<int>((*p + ... + static_cast<int>(i.value)))); }
};
template<std::size_t N>
void numbers_case() {
    long calls = 0;
    std::vector<std::pair<std::size_t, std::size_t>> seen;
    auto f = [&](auto &&...i) {
        ++calls;
        seen = { { static_cast<std::size_t>(i.index), static_cast<std::size_t>(i.value) }... };
        (static_cast<void>(constant<std::remove_cvref_t<decltype(i)>::index>{}), ...);
        return sizeof...(i);
    };
    auto r = pigro::enumerate_n<N>(f);
    CHECK(calls == 1, "enumerate_n<%zu> calls its callable %ld times", N, calls);
    CHECK(r == N, "enumerate_n<%zu> returns %zu", N, static_cast<std::size_t>(r));
    bool ok = seen.size() == N;
    for (std::size_t i = 0; i < seen.size(); ++i) ok = ok && seen[i].first == i && seen[i].second == i;
    CHECK(ok, "enumerate_n<%zu> does not enumerate 0 to n-1", N);
    CHECK(*pigro::enumerate_n<N>(Refuse{}) == static_cast<int>(N * (N ? N - 1 : 0) / 2), "enumerate_n<%zu> with a move-only callable", N);
    mon::stat("items", static_cast<long>(N));
    mon::evaluated(80000 + N, N > 0);
}

inline void pack_facts() {
    int x = 1;
    std::string s = "abc";
    pigro::enumerate_pack([](auto &&a, auto &&b) { a.value = 7, b.value += "d"; }, x, s);
    CHECK(x == 7 && s == "abcd", "writing through an item");
    auto p = std::make_unique<int>(3);
    auto q = pigro::enumerate_pack([](auto &&a) { return std::move(a.value); }, std::move(p));
    CHECK(q && *q == 3 && !p, "moving out of an item");
    auto index_sum = pigro::enumerate_pack([](auto &&...i) { return std::integral_constant<std::size_t, (0 + ... + std::remove_cvref_t<decltype(i)>::index)>{}; }, 1, 2, 3, 4);
    CHECK(index_sum() == 6, "indices as constants");
    int arr[3] = { 1, 2, 3 };
    CHECK((pigro::enumerate_pack([&](auto &&i) { return static_cast<const void *>(&i.value) == static_cast<const void *>(&arr); }, arr)), "arrays are passed as they are");
    try {
        pigro::enumerate_pack([](auto &&...) { throw Fault{ 5, 0 }; }, 1, 2);
        mon::violation("the exception of the callable of enumerate_pack does not arrive");
    } catch (const Fault &f) {
        CHECK(f.serial == 5, "another exception");
    }
    mon::evaluated(80999, true);
}

} // namespace bm
