// Type-level stand-in for sqlite_orm (not installed here): declarations only, so that the parts of
// the repository that use it can be parsed and type-checked by the extractor.  Never linked.
#pragma once
#include <algorithm>
#include <functional>
#include <iomanip>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
namespace sqlite_orm {
struct expr {};
template <class T> struct coltype;
template <class T, class M> struct coltype<M T::*> { using type = M; };
template <class... Cs> struct columns_t {};
template <class C> struct distinct_t {};
struct opts { template <class... A> opts references(A...); };
template <class... A> expr make_table(A &&...);
template <class... A> expr make_column(A &&...);
template <class... A> opts foreign_key(A &&...);
template <class... A> expr primary_key(A &&...);
template <class... A> expr autoincrement(A &&...);
template <class... A> expr unique(A &&...);
template <class T> expr c(T);
template <class... A> expr where(A &&...);
template <class... A> expr order_by(A &&...);
template <class... A> expr like(A &&...);
template <class... A> expr in(A &&...);
template <class... A> expr is_null(A &&...);
template <class... A> expr group_by(A &&...);
template <class... A> expr limit(A &&...);
template <class... Cs> columns_t<Cs...> columns(Cs...);
template <class C> distinct_t<C> distinct(C);
template <class T> expr operator==(expr, const T &);
template <class T> expr operator!=(expr, const T &);
template <class T> expr operator<(expr, const T &);
template <class T> expr operator>(expr, const T &);
template <class T> expr operator<=(expr, const T &);
template <class T> expr operator>=(expr, const T &);
expr operator&&(expr, expr);
expr operator||(expr, expr);
expr operator!(expr);
struct storage_t {
    template <class T, class... A> std::vector<T> get_all(A &&...);
    template <class T, class... A> std::unique_ptr<T> get_pointer(A &&...);
    template <class T, class... A> T get(A &&...);
    template <class... Cs, class... A>
    std::vector<std::tuple<typename coltype<Cs>::type...>> select(columns_t<Cs...>, A &&...);
    template <class C, class... A>
    std::vector<typename coltype<C>::type> select(distinct_t<C>, A &&...);
    template <class M, class T, class... A> std::vector<M> select(M T::*, A &&...);
    template <class T> void replace(const T &);
    template <class T> int insert(const T &);
    template <class T, class... A> int count(A &&...);
    void sync_schema();
    bool begin_transaction();
    void commit();
};
template <class... A> storage_t make_storage(A &&...);
}  // namespace sqlite_orm
