// Opens, closes and chooses OpenCL devices, works with images on them, and records what there is after each step.
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <fstream>
#include <functional>
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>

#include "image_buffer.h"
#include "opencl/image_buffer_opencl.h"
#include "opencl/image_function_opencl.h"
#include "opencl/opencl_device.h"
#include "opencl/opencl_helper.h"
#include "opencl/opencl_types.h"
#include "penguinv_exception.h"
#include "recorder.h"

using penguinV::Image;
using penguinV::ImageOpenCL;
using rec::chance;
using rec::Line;
using rec::rnd;
using rec::rndIn;

namespace
{
    const int threadCount = 2, slotCount = 4;

    // a thread which does what it is told
    struct Helper
    {
        std::mutex m;
        std::condition_variable cv;
        std::function<void()> work;
        bool stop = false;
        std::thread thread;
        Helper()
            : thread( [this]() {
                std::unique_lock<std::mutex> lock( m );
                while ( true ) {
                    cv.wait( lock, [this]() { return stop || work; } );
                    if ( !work )
                        return;
                    work();
                    work = nullptr;
                    cv.notify_all();
                }
            } )
        {}
        ~Helper()
        {
            {
                std::lock_guard<std::mutex> lock( m );
                stop = true;
            }
            cv.notify_all();
            thread.join();
        }
        void start( const std::function<void()> & f )
        {
            std::lock_guard<std::mutex> lock( m );
            work = f;
            cv.notify_all();
        }
        void wait()
        {
            std::unique_lock<std::mutex> lock( m );
            cv.wait( lock, [this]() { return !work; } );
        }
    };
    std::unique_ptr<Helper> helper;

    // in a thread of number 1 or 2
    void in( int thread, const std::function<void()> & f )
    {
        if ( thread == 1 )
            f();
        else {
            helper->start( f );
            helper->wait();
        }
    }

    int caught( const std::function<void()> & f )
    {
        try {
            f();
        }
        catch ( const penguinVException & ) {
            return 1;
        }
        catch ( ... ) {
            return 2;
        }
        return 0;
    }

    multiCL::OpenCLDeviceManager & manager()
    {
        return multiCL::OpenCLDeviceManager::instance();
    }

    // what the driver knows itself: where its images live, which it must destroy before the device is closed
    struct Slot
    {
        std::unique_ptr<ImageOpenCL> im;
        uint32_t dev = 0;
        bool lives() const
        {
            return im && !im->empty();
        }
    };
    Slot slots[slotCount];
    std::vector<void *> ids;
    uint32_t supported = 0, active[threadCount] = { 0, 0 };
    std::vector<bool> open;

    std::string rows( const std::vector<uint8_t> & v, size_t row, size_t used )
    {
        std::string s = "[";
        for ( size_t i = 0; i * row < v.size(); ++i ) {
            s += i ? ",[" : "[";
            for ( size_t k = 0; k < used; ++k )
                s += ( k ? "," : "" ) + std::to_string( v[i * row + k] );
            s += "]";
        }
        return s + "]";
    }

    // straight from the device, whichever is active
    std::string image( Slot & s )
    {
        if ( !s.im )
            return "{\"dev\":-1,\"w\":0,\"h\":0,\"cc\":1,\"al\":1,\"rows\":[]}";
        std::string r = "{\"dev\":" + std::to_string( s.lives() ? static_cast<int>( s.dev ) : -1 ) + ",\"w\":" + std::to_string( s.im->width() ) + ",\"h\":" + std::to_string( s.im->height() )
                        + ",\"cc\":" + std::to_string( s.im->colorCount() ) + ",\"al\":" + std::to_string( s.im->alignment() );
        std::vector<uint8_t> v( static_cast<size_t>( s.im->rowSize() ) * s.im->height() );
        if ( s.lives() ) {
            multiCL::OpenCLDevice & d = manager().device( s.dev );
            d.synchronize();
            if ( clEnqueueReadBuffer( d.queue()(), reinterpret_cast<cl_mem>( s.im->data() ), CL_TRUE, 0, v.size(), v.data(), 0, NULL, NULL ) != CL_SUCCESS )
                return r + ",\"rows\":[[-1]]}";
        }
        return r + ",\"rows\":" + ( s.lives() ? rows( v, s.im->rowSize(), static_cast<size_t>( s.im->width() ) * s.im->colorCount() ) : "[]" ) + ",\"type\":" + std::to_string( s.im->type() ) + "}";
    }

    int indexOf( void * id )
    {
        for ( size_t i = 0; i < ids.size(); ++i )
            if ( ids[i] == id )
                return static_cast<int>( i );
        return -2;
    }

    // what there is
    void observe( Line & l )
    {
        l.num( "count", manager().deviceCount() ).num( "n", manager().supportedDeviceCount() );
        std::vector<int> which, unknown, working;
        std::string queues = "[";
        const multiCL::OpenCLDeviceManager & constant = manager();
        for ( uint32_t d = 0; d < supported; ++d ) {
            std::string q = "[]";
            int seen = -1;
            const int t = caught( [&]() {
                multiCL::OpenCLDevice & device = manager().device( d );
                if ( ids[d] == nullptr && indexOf( device.deviceId() ) == -2 )
                    ids[d] = device.deviceId();
                seen = &constant.device( d ) == &device && &multiCL::MemoryManager::memory( d ) == &device.allocator() ? indexOf( device.deviceId() ) : -3;
                q = "[" + std::to_string( device.queueCount() ) + "," + std::to_string( device.currentQueueId() ) + "," + ( &device.queue() == &device.queue( device.currentQueueId() ) ? "1" : "0" ) + "]";
            } );
            which.push_back( t == 0 ? seen : t == 1 ? -1 : -4 );
            queues += ( d ? "," : "" ) + q;
        }
        for ( uint32_t d : { supported, supported + 1, 0x7FFFFFFFu, 0xFFFFFFFFu } )
            unknown.push_back( caught( [&]() { chance( 50 ) ? manager().device( d ) : constant.device( d ); } ) );
        for ( int th = 1; th <= threadCount; ++th )
            in( th, [&]() {
                int seen = -1;
                const int t = caught( [&]() {
                    seen = indexOf( manager().device().deviceId() );
                    if ( &multiCL::MemoryManager::memory() != &manager().device().allocator() || &constant.device() != &manager().device() )
                        seen = -3;
                } );
                working.push_back( t == 0 ? seen : t == 1 ? -1 : -4 );
            } );
        l.list( "which", which ).raw( "queues", queues + "]" ).list( "unknown", unknown ).list( "working", working );
        std::string images = "[";
        for ( int k = 0; k < slotCount; ++k )
            images += ( k ? "," : "" ) + image( slots[k] );
        l.raw( "images", images + "]" );
    }

    void starting( const Line & l )
    {
        Line before = l;
        const size_t a = before.s.find( ":\"" ) + 2, b = before.s.find( '"', a );
        before.s.replace( a, b - a, "start" );
        before.emit( true );
    }

    Line step( const char * e, const std::string & op, int th )
    {
        Line l( e );
        l.str( "op", op ).num( "th", th );
        return l;
    }

    void finish( Line & l, int t )
    {
        l.num( "t", t );
        observe( l );
        l.emit();
    }

    // the images of a device have to be destroyed before it is closed, by a thread which works with it
    void destroyOn( uint32_t d );

    uint32_t capped( uint32_t v )
    {
        return v > 1073741824u ? 1073741824u : v;
    }

    void deviceStep( const std::string & op, int th, uint32_t d, uint32_t c = 0 )
    {
        if ( op == "close" && d < supported && open[d] )
            destroyOn( d );
        if ( op == "closeall" || op == "reset" )
            for ( uint32_t k = 0; k < supported; ++k )
                if ( open[k] )
                    destroyOn( k );
        Line l = step( "device", op, th );
        l.num( "d", capped( d ) ).num( "c", capped( c ) );
        starting( l );
        int t = 0;
        in( th, [&]() {
            t = caught( [&]() {
                if ( op == "init" )
                    manager().initializeDevice( d );
                else if ( op == "initall" )
                    manager().initializeDevices();
                else if ( op == "close" )
                    manager().closeDevice( d );
                else if ( op == "closeall" )
                    manager().closeDevices();
                else if ( op == "reset" )
                    manager().resetSupportedDevice();
                else if ( op == "active" )
                    manager().setActiveDevice( d );
                else if ( op == "queues" )
                    manager().device( d ).setQueueCount( c );
                else if ( op == "queue" )
                    manager().device( d ).setCurrentQueueId( c );
                else
                    exit( 2 );
            } );
        } );
        for ( uint32_t k = 0; k < supported; ++k ) {
            bool is = false;
            caught( [&]() {
                manager().device( k );
                is = true;
            } );
            open[k] = is;
        }
        if ( op == "active" && t == 0 )
            active[th - 1] = d;
        finish( l, t );
    }

    bool works( int th )
    {
        return active[th - 1] < supported && open[active[th - 1]];
    }

    // a slot the thread may work with
    bool mine( int th, int slot )
    {
        return works( th ) && ( !slots[slot].lives() || slots[slot].dev == active[th - 1] );
    }

    void imageStep( const std::string & op, int th, int a, int b, int c, uint32_t w, uint32_t h, uint8_t cc, uint8_t al, uint8_t value )
    {
        if ( !mine( th, a ) || !mine( th, b ) || !mine( th, c ) )
            return;
        const uint32_t dev = active[th - 1];
        Slot &A = slots[a], &B = slots[b], &C = slots[c];
        if ( op != "create" && !A.im )
            return;
        if ( ( op == "copy" || op == "assign" || op == "swap" || op == "moveassign" || op == "move" ) && ( a == b || ( op != "copy" && op != "move" && !B.im ) ) )
            return;
        if ( ( op == "fill" || op == "write" || op == "read" || op == "invert" || op == "difference" || op == "part" ) && !A.lives() )
            return;
        if ( op == "difference" && ( !B.lives() || !A.im || A.im->width() != B.im->width() || A.im->height() != B.im->height() || A.im->colorCount() != B.im->colorCount() ) )
            return;
        Line l = step( "image", op, th );
        l.num( "a", a + 1 ).num( "b", b + 1 ).num( "cs", c + 1 ).num( "w", w ).num( "h", h ).num( "cc", cc ).num( "al", al ).num( "value", value );
        Image host;
        if ( op == "write" || op == "read" ) {
            host = Image( A.im->width(), A.im->height(), A.im->colorCount(), static_cast<uint8_t>( rndIn( 1, 4 ) ) );
            for ( size_t i = 0; i < static_cast<size_t>( host.rowSize() ) * host.height(); ++i )
                host.data()[i] = static_cast<uint8_t>( rnd( 256 ) );
        }
        size_t offset = 0, size = 0;
        if ( op == "part" ) {
            size = static_cast<size_t>( A.im->rowSize() ) * A.im->height();
            offset = rnd( static_cast<uint32_t>( size ) );
            size = rndIn( 1, static_cast<uint32_t>( size - offset ) );
            l.num( "offset", static_cast<int64_t>( offset ) ).num( "size", static_cast<int64_t>( size ) ).num( "row", A.im->rowSize() );
        }
        starting( l );
        int t = 0;
        in( th, [&]() {
            t = caught( [&]() {
                if ( op == "create" ) {
                    A.im.reset();
                    A.im.reset( new ImageOpenCL( w, h, cc, al ) );
                    A.im->fill( value );
                }
                else if ( op == "fill" )
                    A.im->fill( value );
                else if ( op == "part" )
                    multiCL::MemoryManager::memorySet( reinterpret_cast<cl_mem>( A.im->data() ), &value, 1, offset, size );
                else if ( op == "write" )
                    Image_Function_OpenCL::ConvertToOpenCL( host, *A.im );
                else if ( op == "read" ) {
                    if ( chance( 50 ) )
                        host = Image_Function_OpenCL::ConvertFromOpenCL( *A.im );
                    else
                        Image_Function_OpenCL::ConvertFromOpenCL( *A.im, host );
                }
                else if ( op == "copy" ) {
                    B.im.reset();
                    B.im.reset( new ImageOpenCL( *A.im ) );
                }
                else if ( op == "move" ) {
                    B.im.reset();
                    B.im.reset( new ImageOpenCL( std::move( *A.im ) ) );
                }
                else if ( op == "assign" )
                    *B.im = *A.im;
                else if ( op == "moveassign" )
                    *B.im = std::move( *A.im );
                else if ( op == "swap" )
                    B.im->swap( *A.im );
                else if ( op == "resize" ) {
                    A.im->resize( w, h );
                    A.im->fill( value );
                }
                else if ( op == "clear" )
                    A.im->clear();
                else if ( op == "destroy" )
                    A.im.reset();
                else if ( op == "invert" ) {
                    if ( a == b )
                        Image_Function_OpenCL::Invert( *A.im, *A.im );
                    else {
                        B.im.reset();
                        B.im.reset( new ImageOpenCL() );
                        Image made = Image_Function_OpenCL::Invert( *A.im );
                        B.im->swap( made );
                    }
                }
                else if ( op == "difference" ) {
                    Image made = Image_Function_OpenCL::AbsoluteDifference( *A.im, *B.im );
                    C.im.reset();
                    C.im.reset( new ImageOpenCL() );
                    C.im->swap( made );
                }
                else
                    exit( 2 );
            } );
        } );
        for ( Slot * s : { &A, &B, &C } )
            s->dev = dev;
        if ( op == "write" || op == "read" )
            l.raw( "host", rows( std::vector<uint8_t>( host.data(), host.data() + static_cast<size_t>( host.rowSize() ) * host.height() ), host.rowSize(),
                                 static_cast<size_t>( host.width() ) * host.colorCount() ) );
        finish( l, t );
    }

    void destroyOn( uint32_t d )
    {
        bool any = false;
        for ( Slot & s : slots )
            any = any || ( s.lives() && s.dev == d );
        if ( !any )
            return;
        int th = active[0] == d ? 1 : active[1] == d ? 2 : 0;
        if ( th == 0 ) {
            th = static_cast<int>( rndIn( 1, threadCount ) );
            deviceStep( "active", th, d );
        }
        for ( int k = 0; k < slotCount; ++k )
            if ( slots[k].lives() && slots[k].dev == d )
                imageStep( "destroy", th, k, k, k, 0, 0, 1, 1, 0 );
    }

    // memory reserved in advance
    void reserve( int th, uint32_t d, uint32_t size )
    {
        if ( d >= supported || !open[d] )
            return;
        Line l = step( "reserve", "reserve", th );
        l.num( "d", d ).num( "size", size );
        starting( l );
        int t = 0;
        in( th, [&]() { t = caught( [&]() { multiCL::MemoryManager::memory( d ).reserve( size ); } ); } );
        finish( l, t );
    }

    // both threads at work at the same time, each with an image of its own
    void together( uint32_t most = 40 )
    {
        if ( !works( 1 ) || !works( 2 ) || !slots[0].lives() || !slots[1].lives() || slots[0].dev != active[0] || slots[1].dev != active[1] )
            return;
        const uint8_t v[2] = { static_cast<uint8_t>( rnd( 256 ) ), static_cast<uint8_t>( rnd( 256 ) ) };
        const uint32_t n = rndIn( most / 40, most );
        Line l = step( "together", "together", 1 );
        l.num( "v1", v[0] ).num( "v2", v[1] ).num( "times", n );
        starting( l );
        int t[2] = { 0, 0 };
        auto work = [&]( int k ) {
            t[k] = caught( [&]() {
                for ( uint32_t i = 0; i < n; ++i ) {
                    slots[k].im->fill( static_cast<uint8_t>( v[k] + i ) );
                    if ( i % 8 == 3 )
                        Image_Function_OpenCL::Invert( *slots[k].im, *slots[k].im );
                    if ( i % 2 ) {
                        const ImageOpenCL copy( *slots[k].im );
                        ImageOpenCL other( 1 + i, 2 );
                        other.fill( v[k] );
                        *slots[k].im = copy;
                        multiCL::Type<uint32_t> number( i );
                        if ( number.get() != i )
                            throw std::logic_error( "another value" );
                    }
                }
                slots[k].im->fill( v[k] );
            } );
        };
        helper->start( [&]() { work( 1 ); } );
        work( 0 );
        helper->wait();
        finish( l, t[0] > t[1] ? t[0] : t[1] );
    }

    // values and arrays on the device
    void values( int th )
    {
        if ( !works( th ) )
            return;
        std::vector<uint32_t> v( rndIn( 1, 30 ) ), out, w( rndIn( 0, 20 ) ), out2;
        for ( uint32_t & x : v )
            x = rnd( 1000000 );
        for ( uint32_t & x : w )
            x = rnd( 1000000 );
        uint32_t one = 0, a = rnd( 100000 ), b = rnd( 100000 ), two = 0;
        Line l = step( "values", "values", th );
        l.list( "v", v ).list( "w2", w ).num( "x", a ).num( "y", b );
        starting( l );
        int t = 0;
        in( th, [&]() {
            t = caught( [&]() {
                multiCL::Array<uint32_t> array( v );
                multiCL::Type<uint32_t> x( a );
                one = x.get();
                x = b;
                two = x.get();
                out = array.get();
                array = w;
                out2 = array.get();
            } );
        } );
        l.list( "out", out ).list( "out2", out2 ).num( "one", one ).num( "two", two );
        finish( l, t );
    }

    void someDeviceStep( int th )
    {
        const uint32_t some[] = { supported, supported + 1, 255, 0x80000000u, 0xFFFFFFFFu };
        const uint32_t d = chance( 8 ) ? some[rnd( 5 )] : rnd( supported );
        switch ( rnd( 12 ) ) {
        case 0:
        case 1:
        case 2:
            deviceStep( "init", th, d );
            break;
        case 3:
            deviceStep( "close", th, d );
            break;
        case 4:
            deviceStep( chance( 50 ) ? "initall" : chance( 50 ) ? "closeall" : "reset", th, 0 );
            break;
        case 5:
        case 6:
        case 7:
        case 8:
            deviceStep( "active", th, d );
            break;
        case 9: {
            static const uint32_t counts[] = { 0, 1, 2, 3, 4, 200, 255, 256, 257, 100000 };
            if ( d < supported ) {
                deviceStep( "queues", th, d, chance( 85 ) ? counts[rnd( 5 )] : counts[5 + rnd( 5 )] );
                if ( chance( 50 ) )
                    deviceStep( "queue", th, d, rnd( 5 ) );
            }
            break;
        }
        case 10:
            if ( d < supported )
                deviceStep( "queue", th, d, rnd( 5 ) );
            break;
        default:
            reserve( th, d, chance( 50 ) ? 4096u << rnd( 4 ) : rndIn( 1, 20000 ) );
        }
    }

    void someImageStep( int th )
    {
        static const char * ops[] = { "create", "create", "create", "fill", "part", "write", "read", "copy", "move", "assign", "moveassign", "swap", "resize", "clear", "destroy", "invert", "invert", "difference", "values", "together" };
        const std::string op = ops[rnd( 20 )];
        if ( op == "values" )
            values( th );
        else if ( op == "together" )
            together();
        else {
            static const uint8_t counts[] = { 1, 3, 4 }, als[] = { 1, 2, 4, 8, 16, 32 };
            const bool grey = chance( 70 );
            imageStep( op, th, static_cast<int>( rnd( slotCount ) ), static_cast<int>( rnd( slotCount ) ), static_cast<int>( rnd( slotCount ) ), rndIn( 1, chance( 50 ) ? 3 : 30 ), rndIn( 1, 6 ),
                       grey ? 1 : counts[rnd( 3 )], als[rnd( 6 )], static_cast<uint8_t>( rnd( 256 ) ) );
        }
    }

    void beginning()
    {
        for ( uint32_t d = 0; d < supported; ++d )
            if ( open[d] )
                destroyOn( d );
        for ( Slot & s : slots )
            s.im.reset();
        manager().closeDevices();
        for ( uint32_t d = 0; d < supported; ++d )
            open[d] = false;
        helper.reset(); // a new thread works with device 0
        helper.reset( new Helper );
        active[1] = 0;
        // the main thread can return to device 0 only while it is open
        if ( active[0] != 0 ) {
            manager().initializeDevice( 0 );
            manager().setActiveDevice( 0 );
            manager().closeDevices();
            active[0] = 0;
        }
        Line l( "begin" );
        l.num( "supported", supported );
        l.emit();
    }

    // makes an image, changes it, and takes it away again
    void launch( int th )
    {
        if ( !works( th ) ) {
            Line l = step( "nodevice", "nodevice", th );
            starting( l );
            int t = 0;
            in( th, [&]() { t = caught( [&]() { ImageOpenCL im( 3, 2 ); } ); } );
            finish( l, t );
            return;
        }
        imageStep( "create", th, 0, 0, 0, rndIn( 1, 12 ), rndIn( 1, 3 ), 1, 1, static_cast<uint8_t>( rnd( 256 ) ) );
        imageStep( "invert", th, 0, 0, 0, 0, 0, 1, 1, 0 );
        imageStep( "destroy", th, 0, 0, 0, 0, 0, 1, 1, 0 );
    }
}

int main( int argc, char ** argv )
{
    std::string path = "/dev/stdout", script;
    uint32_t histories = 0;
    uint64_t seed = 1;
    for ( int i = 1; i + 1 < argc; i += 2 ) {
        const std::string k = argv[i], v = argv[i + 1];
        if ( k == "--seed" )
            seed = std::stoull( v );
        else if ( k == "--out" )
            path = v;
        else if ( k == "--histories" )
            histories = static_cast<uint32_t>( std::stoul( v ) );
        else if ( k == "--script" )
            script = v;
        else
            return 2;
    }
    rec::out() = fopen( path.c_str(), "w" );
    if ( !rec::out() )
        return 2;
    rec::genState() = seed * 0x2545F4914F6CDD1Dull;
    alarm( 200 );
    multiCL::enableDeviceSupport( true, true );
    manager().resetSupportedDevice();
    supported = manager().supportedDeviceCount();
    if ( supported < 2 ) {
        printf( "%u OpenCL devices\n", supported );
        return 3;
    }
    ids.assign( supported, nullptr );
    open.assign( supported, false );
    helper.reset( new Helper );
    for ( uint32_t i = 0; i < histories; ++i ) {
        beginning();
        for ( uint32_t d = 0; d < supported; ++d )
            if ( chance( 60 ) )
                deviceStep( "init", 1, d );
        if ( i % 4 == 0 ) { // two threads and the reserved memory of one device
            const uint32_t d = rnd( supported );
            deviceStep( "init", 1, d );
            reserve( 1, d, 4096u << rnd( 6 ) );
            for ( int th = 1; th <= threadCount; ++th ) {
                deviceStep( "active", th, d );
                imageStep( "create", th, th - 1, th - 1, th - 1, rndIn( 1, 30 ), rndIn( 1, 6 ), 1, 1, static_cast<uint8_t>( rnd( 256 ) ) );
            }
            together( 200 );
        }
        const uint32_t often = rndIn( 5, 50 );
        for ( uint32_t n = rndIn( 5, 40 ); n > 0; --n ) {
            const int th = static_cast<int>( rndIn( 1, threadCount ) );
            chance( often ) ? someDeviceStep( th ) : someImageStep( th );
        }
    }
    if ( !script.empty() ) {
        std::ifstream in( script );
        for ( std::string line; std::getline( in, line ); ) {
            std::istringstream is( line );
            std::string op;
            uint32_t d;
            beginning();
            while ( is >> op >> d ) {
                if ( op == "launch1" || op == "launch2" )
                    launch( op[6] - '0' );
                else if ( op == "active1" || op == "active2" )
                    deviceStep( "active", op[6] - '0', d );
                else if ( op == "queue" || op == "queues" )
                    deviceStep( op, static_cast<int>( rndIn( 1, threadCount ) ), 0, d );
                else
                    deviceStep( op, static_cast<int>( rndIn( 1, threadCount ) ), d );
            }
        }
    }
    beginning();
    helper.reset();
    Line( "end" ).emit();
    fclose( rec::out() );
    return 0;
}
