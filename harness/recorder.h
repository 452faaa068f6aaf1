// What the drivers share: a seeded generator and a recorder of ndjson lines.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unistd.h>
#include <vector>

namespace rec
{
    inline uint64_t & genState()
    {
        static uint64_t s = 1;
        return s;
    }
    inline uint32_t rnd( uint32_t n )
    {
        uint64_t & g = genState();
        g += 0x9E3779B97F4A7C15ull;
        uint64_t z = g;
        z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
        z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
        z ^= z >> 31;
        return n == 0 ? 0 : static_cast<uint32_t>( z % n );
    }
    inline uint32_t rndIn( uint32_t a, uint32_t b )
    {
        return a + rnd( b - a + 1 );
    }
    inline bool chance( uint32_t percent )
    {
        return rnd( 100 ) < percent;
    }

    inline FILE *& out()
    {
        static FILE * f = nullptr;
        return f;
    }

    // one line
    struct Line
    {
        std::string s;
        explicit Line( const char * e )
            : s( std::string( "{\"e\":\"" ) + e + "\"" )
        {}
        Line & key( const char * k )
        {
            s += std::string( ",\"" ) + k + "\":";
            return *this;
        }
        Line & num( const char * k, int64_t v )
        {
            key( k );
            s += std::to_string( v );
            return *this;
        }
        Line & str( const char * k, const std::string & v )
        {
            key( k );
            s += "\"" + v + "\"";
            return *this;
        }
        template <typename T>
        Line & list( const char * k, const std::vector<T> & v )
        {
            key( k );
            append( v );
            return *this;
        }
        template <typename T>
        void append( const std::vector<T> & v )
        {
            s += "[";
            for ( size_t i = 0; i < v.size(); ++i ) {
                if ( i )
                    s += ",";
                s += std::to_string( v[i] );
            }
            s += "]";
        }
        Line & raw( const char * k, const std::string & v )
        {
            key( k );
            s += v;
            return *this;
        }
        // flush: so that the line survives a crash in what follows
        void emit( bool flush = false )
        {
            s += "}\n";
            fputs( s.c_str(), out() );
            if ( flush )
                fflush( out() );
        }
    };

    // the closest integer, far values clamped (TLC has 32-bit integers)
    inline int64_t scaled( double v, double scale )
    {
        const double x = v * scale;
        if ( !( x > -2.0e9 ) )
            return -2000000000;
        if ( x > 2.0e9 )
            return 2000000000;
        return std::llround( x );
    }
}
