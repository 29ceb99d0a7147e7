// An archive as Boost.Serialization understands it: the sequence of the primitive values an object's serialize function
// passes on.  Saving appends them, loading takes them back in order; a value of another width taken back is an error.
#pragma once
#include <array>
#include <map>
#include <string>
#include <type_traits>
#include <vector>
#include <boost/mpl/bool.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/serialization.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/split_member.hpp>
namespace vcd {
    struct tape {
        static constexpr unsigned capacity = 640;
        std::uint64_t cell[capacity], width[capacity];      // the first `written` are set
        unsigned written = 0, read = 0; bool wrong = false;
        std::vector<std::uint64_t> block0, block1, block2, block3; unsigned blocks = 0, taken = 0;      // sequences of 64-bit numbers, of any length
        std::vector<std::uint64_t> &block(unsigned i) { return i == 0 ? block0 : i == 1 ? block1 : i == 2 ? block2 : block3; }
    };
    template<bool saving> struct archive {
        typedef boost::mpl::bool_<saving> is_saving;
        typedef boost::mpl::bool_<!saving> is_loading;
        tape &t;
        explicit archive(tape &t) : t(t) {}
        unsigned get_library_version() const { return 19; }
        template<class...> void register_type() {}
        template<class T> archive &operator&(const T &x) { visit(const_cast<T &>(x)); return *this; }
        template<class T> archive &operator<<(const T &x) { visit(const_cast<T &>(x)); return *this; }
        template<class T> archive &operator>>(const T &x) { visit(const_cast<T &>(x)); return *this; }
        template<class T> void visit(const boost::serialization::nvp<T> &x) { visit(const_cast<boost::serialization::nvp<T> &>(x).value()); }
        template<class T> void visit(boost::serialization::nvp<T> &x) { visit(const_cast<std::remove_const_t<T> &>(x.value())); }
        template<class T, std::size_t n> void visit(std::array<T, n> &x) { for(auto &e : x) visit(e); }
        void visit(std::string &x) { auto n = x.size(); visit(n); if(!saving) x.resize(n); for(auto &e : x) visit(e); }
        void visit(std::vector<std::uint64_t> &x)
        {
            if(saving) { if(t.blocks >= 4) t.wrong = true; else t.block(t.blocks++) = x; }
            else { if(t.taken >= t.blocks) t.wrong = true; else x = t.block(t.taken++); }
        }
        void save_binary(const void *p, std::size_t n) { for(std::size_t i = 0; i < n; ++i) visit(static_cast<unsigned char *>(const_cast<void *>(p))[i]); }
        void load_binary(void *p, std::size_t n) { save_binary(p, n); }
        template<class T> void visit(std::vector<T> &x) { auto n = x.size(); visit(n); if(!saving) x.resize(n); for(auto &e : x) visit(e); }
        template<class K, class V> void visit(std::map<K, V> &x)
        {
            auto n = x.size(); visit(n);
            if(saving) { for(auto &[k, v] : x) { visit(const_cast<K &>(k)); visit(v); } }
            else { x.clear(); for(std::size_t i = 0; i < n; ++i) { K k = K(); V v = V(); visit(k); visit(v); x.emplace(k, v); } }
        }
        template<class T> void visit(T &x)
        {
            if constexpr(std::is_arithmetic_v<T> || std::is_enum_v<T>) {
                static_assert(sizeof(T) <= 8);
                if(saving) {
                    if(t.written >= tape::capacity) { t.wrong = true; return; }
                    std::uint64_t v = 0; __builtin_memcpy(&v, &x, sizeof(T));
                    t.cell[t.written] = v; t.width[t.written++] = sizeof(T);
                }
                else {
                    if(t.read >= t.written || t.width[t.read] != sizeof(T)) { t.wrong = true; return; }
                    __builtin_memcpy(&x, &t.cell[t.read++], sizeof(T));
                }
            }
            else boost::serialization::serialize_adl(*this, x, 0);
        }
    };
    // saves x, loads into y; whether everything written was read back
    template<class T> inline bool reload(const T &x, T &y)
    {
        tape t;
        archive<true> out(t); out << x;
        archive<false> in(t); in >> y;
        return (!t.wrong) & (t.read == t.written) & (t.taken == t.blocks);
    }
}
