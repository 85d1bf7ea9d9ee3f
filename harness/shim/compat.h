#pragma once
#include <variant>
#include <boost/variant/variant.hpp>
#include <boost/variant/get.hpp>
namespace std {
template <class T, class... Ts> const T* get_if(const boost::variant<Ts...>* v) noexcept { return boost::get<T>(v); }
template <class T, class... Ts> T* get_if(boost::variant<Ts...>* v) noexcept { return boost::get<T>(v); }
}
