#pragma once
#include <tr1/functional>
#include <iostream>
#include <tr1/tuple>
#include <string>
#include <istream>
#include <stdint.h>
namespace ply {
typedef int8_t int8; typedef int16_t int16; typedef int32_t int32; typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32; typedef float float32; typedef double float64;
enum format_type { ascii_format, binary_little_endian_format, binary_big_endian_format };
enum byte_order_type { little_endian_byte_order, big_endian_byte_order };
static const byte_order_type host_byte_order = little_endian_byte_order;
namespace callback_types { struct scalar_property_definition_callbacks_type {}; struct list_property_definition_callbacks_type {}; }
template<typename S> struct SCB { typedef std::tr1::function<std::tr1::function<void(S)>(const std::string&, const std::string&)> type; };
template<typename N, typename S> struct LCB { typedef std::tr1::function<std::tr1::tuple<std::tr1::function<void(N)>, std::tr1::function<void(S)>, std::tr1::function<void()> >(const std::string&, const std::string&)> type; };
template<typename S> typename SCB<S>::type& at(callback_types::scalar_property_definition_callbacks_type&);
template<typename N, typename S> typename LCB<N,S>::type& at(callback_types::list_property_definition_callbacks_type&);
struct ply_parser {
    typedef int flags_type; ply_parser(flags_type=0);
    typedef std::tr1::function<void(std::size_t, const std::string&)> mcb;
    void info_callback(mcb const&); void warning_callback(mcb const&); void error_callback(mcb const&);
    void magic_callback(std::tr1::function<void()> const&); void format_callback(std::tr1::function<void(format_type,const std::string&)> const&);
    void scalar_property_definition_callbacks(callback_types::scalar_property_definition_callbacks_type const&); void list_property_definition_callbacks(callback_types::list_property_definition_callbacks_type const&);
    void comment_callback(std::tr1::function<void(const std::string&)> const&); void obj_info_callback(std::tr1::function<void(const std::string&)> const&); void end_header_callback(std::tr1::function<bool()> const&);
    bool parse(std::istream&);
};
}
