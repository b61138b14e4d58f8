// The seams: virtual disk, clock and allocator.  The library under test reaches
// them through the ordinary C library entry points that libstdc++'s file streams
// use (fopen64, read, write, writev, lseek64, fclose), time() and operator new;
// the executable's definitions below take precedence, so no source change is
// needed in the code under test.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <new>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>

namespace seam
{
std::map<std::string, std::shared_ptr<Inode>> files;
bool clock_on = false;
int64_t now = 1700000000;
std::vector<int64_t> clock_steps;
uint64_t clock_reads = 0;
std::vector<int64_t> readings;
static uint64_t lot = 0;
unsigned char junk = 0xA5;
bool junk_on = false;
int spacer = 0;
long live_allocs = 0, live_bytes = 0;
uint64_t alloc_limit = 256ull << 20;
void ( *yield_hook )( const char* ) = nullptr;

struct Handle
{
    std::shared_ptr<Inode> ino;
    std::string path;
    size_t pos = 0;
    bool rd = false, wr = false, app = false;
    size_t closeLose = 0;
};

static std::map<int, Handle> handles;       // fd of placeholder -> handle
static std::map<FILE*, int> byFile;
static std::vector<Fault> plan;
static long cnt[256];
static long chunk = 0;                      // max bytes per read/write call (0 = unlimited)
static long capacity = -1;                  // bytes left on the device (-1 = unlimited)
static bool isCrashed = false, anyFired = false, errFired = false;
static bool armed = false, hasAppeared = false;
static bool inSeam = false;
static bool allocArmed = false;
static long allocCount = 0, allocFailAt = -1;
static bool allocSticky = false;

struct Guard { bool o; Guard() : o( inSeam ) { inSeam = true; } ~Guard() { inSeam = o; } };

struct State
{
    std::map<std::string, std::shared_ptr<Inode>> files;
    bool clock_on = false;
    int64_t now = 1700000000;
    std::vector<int64_t> clock_steps;
    uint64_t clock_reads = 0;
    std::vector<int64_t> readings;
    std::map<int, Handle> handles;
    std::map<FILE*, int> byFile;
    std::vector<Fault> plan;
    long cnt[256] = {};
    long chunk = 0, capacity = -1;
    bool isCrashed = false, anyFired = false, errFired = false, armed = false, hasAppeared = false, inSeam = false;
    bool allocArmed = false, allocSticky = false;
    long allocCount = 0, allocFailAt = -1;
};
State* new_state() { return new State; }
void free_state( State* s ) { delete s; }
void swap_state( State* s )
{
#define SW( x ) std::swap( s->x, x )
    SW( files ); SW( clock_on ); SW( now ); SW( clock_steps ); SW( clock_reads ); SW( readings ); SW( handles ); SW( byFile ); SW( plan );
    SW( cnt ); SW( chunk ); SW( capacity ); SW( isCrashed ); SW( anyFired ); SW( errFired ); SW( armed ); SW( hasAppeared );
    SW( allocArmed ); SW( allocSticky ); SW( allocCount ); SW( allocFailAt );
    SW( inSeam );
#undef SW
}

void reset()
{
    files.clear();
    handles.clear();
    byFile.clear();
    disarm();
    isCrashed = anyFired = errFired = hasAppeared = false;
    clock_on = false;
    clock_steps.clear();
    clock_reads = 0;
    readings.clear();
    lot = 0;
    junk_on = false;
    spacer = 0;
}

void arm( const Op& op )
{
    plan = op.faults;
    memset( cnt, 0, sizeof( cnt ) );
    chunk = op.num( "chunk", 0 );
    capacity = op.num( "cap", -1 );
    isCrashed = anyFired = errFired = hasAppeared = false;
    armed = true;
    allocCount = 0;
    allocFailAt = -1;
    allocSticky = false;
    for( auto& f : plan )
        if( f.cls == 'a' ) { allocFailAt = f.at; allocSticky = f.kind == "oomall"; }
    allocArmed = allocFailAt > 0;
}

void disarm()
{
    plan.clear();
    chunk = 0;
    capacity = -1;
    armed = false;
    allocArmed = false;
    isCrashed = false;      // the machine has been restarted
}

bool exists( const std::string& p ) { return files.count( p ) != 0; }
std::string get( const std::string& p ) { auto i = files.find( p ); return i == files.end() ? std::string() : i->second->data; }
size_t delivered( const std::string& p ) { auto i = files.find( p ); return i == files.end() ? 0 : i->second->high; }
void put( const std::string& p, const std::string& d )
{
    auto i = std::make_shared<Inode>();
    i->data = d;
    files[p] = i;
}
void remove( const std::string& p ) { files.erase( p ); }
int open_handles() { return (int) handles.size(); }
bool fired() { return anyFired; }
bool crashed() { return isCrashed; }
bool io_error_fired() { return errFired; }
bool appeared() { return hasAppeared; }
long calls( char c ) { return cnt[(unsigned char) c]; }

void set_clock( int64_t t, const std::vector<int64_t>& steps )
{
    clock_on = true;
    now = t;
    clock_steps = steps;
    clock_reads = 0;
    readings.clear();
}

static const Fault* hit( char cls )
{
    ++g_stats.io_calls;
    long n = ++cnt[(unsigned char) cls];
    if( !armed )
        return nullptr;
    for( auto& f : plan )
        if( f.cls == cls && f.at == n )
        {
            anyFired = true;
            if( f.kind != "appear" ) ++g_stats.faults[f.kind];
            if( f.kind != "short" && f.kind != "eintr" && f.kind != "appear" )
                errFired = true;
            return &f;
        }
    return nullptr;
}

static int err_of( const std::string& k )
{
    if( k == "eio" ) return EIO;
    if( k == "enospc" ) return ENOSPC;
    if( k == "eacces" ) return EACCES;
    if( k == "emfile" ) return EMFILE;
    if( k == "eintr" ) return EINTR;
    if( k == "edquot" ) return EDQUOT;
    if( k == "erofs" ) return EROFS;
    return EIO;
}

static bool is_sim( const char* p ) { return p && strncmp( p, "/sim/", 5 ) == 0; }

// open; returns false and sets errno on failure
static bool v_open( const char* path, bool rd, bool wr, bool creat, bool trunc, bool app, bool excl, Handle& h )
{
    if( yield_hook ) yield_hook( "open" );
    const Fault* f = hit( 'o' );
    if( f )
    {
        if( f->kind == "appear" )
        {
            // another process creates (or replaces) the file just before this call
            if( files.count( path ) ) { errno = 0; }
            else { hasAppeared = true; ++g_stats.faults["appear"];
            put( path, "foreign content " + std::to_string( f->arg ) + "\n" ); }
        }
        else { errno = err_of( f->kind ); return false; }
    }
    if( isCrashed ) { errno = EIO; return false; }
    auto i = files.find( path );
    if( i == files.end() )
    {
        if( !creat ) { errno = ENOENT; return false; }
        auto n = std::make_shared<Inode>();
        i = files.emplace( path, n ).first;
    }
    else
    {
        if( excl ) { errno = EEXIST; return false; }
        if( ( rd && !i->second->readable ) || ( wr && !i->second->writable ) ) { errno = EACCES; return false; }
        if( trunc ) { i->second->data.clear(); ++i->second->version; }
    }
    h.ino = i->second;
    h.path = path;
    h.rd = rd; h.wr = wr; h.app = app;
    h.pos = 0;
    return true;
}

static ssize_t v_read( Handle& h, void* buf, size_t n )
{
    if( yield_hook ) yield_hook( "read" );
    if( !h.rd ) { errno = EBADF; return -1; }
    const Fault* f = hit( 'r' );
    if( isCrashed ) { errno = EIO; return -1; }
    size_t lim = n;
    if( chunk > 0 && lim > (size_t) chunk ) { lim = chunk; anyFired = true; ++g_stats.faults["short"]; }
    if( f )
    {
        if( f->kind == "short" ) { if( lim > (size_t) f->arg && f->arg > 0 ) lim = f->arg; }
        else { errno = err_of( f->kind ); return -1; }
    }
    size_t avail = h.pos < h.ino->data.size() ? h.ino->data.size() - h.pos : 0;
    if( lim > avail ) lim = avail;
    memcpy( buf, h.ino->data.data() + h.pos, lim );
    h.pos += lim;
    if( h.pos > h.ino->high ) h.ino->high = h.pos;
    return lim;
}

static ssize_t v_write( Handle& h, const void* buf, size_t n )
{
    if( yield_hook ) yield_hook( "write" );
    if( !h.wr ) { errno = EBADF; return -1; }
    const Fault* f = hit( 'w' );
    if( isCrashed ) { errno = EIO; return -1; }
    size_t lim = n;
    bool crash = false;
    if( chunk > 0 && lim > (size_t) chunk ) { lim = chunk; anyFired = true; ++g_stats.faults["short"]; }
    if( f )
    {
        if( f->kind == "short" ) { if( lim > (size_t) f->arg && f->arg > 0 ) lim = f->arg; }
        else if( f->kind == "crash" ) { crash = true; if( lim > (size_t) f->arg ) lim = f->arg; }
        else { errno = err_of( f->kind ); return -1; }
    }
    if( !crash && capacity >= 0 )
    {
        if( capacity == 0 && lim > 0 ) { anyFired = errFired = true; ++g_stats.faults["enospc"]; errno = ENOSPC; return -1; }
        if( (long) lim > capacity ) lim = capacity;
        capacity -= lim;
    }
    if( h.app ) h.pos = h.ino->data.size();
    std::string& d = h.ino->data;
    if( d.size() < h.pos ) d.resize( h.pos, '\0' );
    d.replace( h.pos, std::min( lim, d.size() - h.pos ), (const char*) buf, lim );
    h.pos += lim;
    ++h.ino->version;
    if( crash ) { isCrashed = true; errno = EIO; return -1; }
    return lim;
}

static off64_t v_seek( Handle& h, off64_t off, int whence )
{
    const Fault* f = hit( 's' );
    if( f ) { errno = err_of( f->kind ); return -1; }
    if( isCrashed ) { errno = EIO; return -1; }
    off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t) h.pos : (off64_t) h.ino->data.size();
    if( base + off < 0 ) { errno = EINVAL; return -1; }
    h.pos = base + off;
    return h.pos;
}

static int v_close( Handle& h )
{
    if( yield_hook ) yield_hook( "close" );
    const Fault* f = h.wr ? hit( 'c' ) : nullptr;
    if( f && !isCrashed )
    {
        // delayed allocation: the tail of the data never reached the medium
        std::string& d = h.ino->data;
        size_t keep = f->arg > 0 && (size_t) f->arg < d.size() ? d.size() - f->arg : 0;
        d.resize( keep );
        ++h.ino->version;
        errno = err_of( f->kind );
        return -1;
    }
    if( isCrashed ) { errno = EIO; return -1; }
    return 0;
}

static Handle* find( int fd )
{
    auto i = handles.find( fd );
    return i == handles.end() ? nullptr : &i->second;
}

template<class F> static F real( const char* name )
{
    return (F) dlsym( RTLD_NEXT, name );
}

static bool parse_mode( const char* m, bool& rd, bool& wr, bool& creat, bool& trunc, bool& app, bool& excl )
{
    rd = wr = creat = trunc = app = excl = false;
    bool plus = strchr( m, '+' ) != nullptr;
    excl = strchr( m, 'x' ) != nullptr;
    switch( m[0] )
    {
        case 'r': rd = true; wr = plus; break;
        case 'w': wr = true; rd = plus; creat = trunc = true; break;
        case 'a': wr = true; rd = plus; creat = app = true; break;
        default: errno = EINVAL; return false;
    }
    return true;
}

// placeholder FILE on /dev/null whose descriptor identifies the virtual handle
static FILE* v_fopen_fd( const char* path, const char* mode )
{
    Guard g;
    bool rd, wr, creat, trunc, app, excl;
    Handle h;
    if( !parse_mode( mode, rd, wr, creat, trunc, app, excl ) ) return nullptr;
    if( !v_open( path, rd, wr, creat, trunc, app, excl, h ) ) return nullptr;
    static auto rf = real<FILE* (*)( const char*, const char* )>( "fopen64" );
    FILE* fp = rf( "/dev/null", "r+" );
    if( !fp ) abort();
    handles[fileno( fp )] = h;
    byFile[fp] = fileno( fp );
    return fp;
}

// stdio clients get a cookie stream so that fread/fwrite/fprintf also reach the disk
static ssize_t ck_read( void* c, char* b, size_t n ) { Guard g; return v_read( *(Handle*) c, b, n ); }
static ssize_t ck_write( void* c, const char* b, size_t n )
{
    Guard g;
    size_t done = 0;
    while( done < n )
    {
        ssize_t r = v_write( *(Handle*) c, b + done, n - done );
        if( r < 0 ) { if( errno == EINTR ) continue; return done ? (ssize_t) done : 0; }
        done += r;
    }
    return done;
}
static int ck_seek( void* c, off64_t* o, int w ) { Guard g; off64_t r = v_seek( *(Handle*) c, *o, w ); if( r < 0 ) return -1; *o = r; return 0; }
static int ck_close( void* c ) { Guard g; Handle* h = (Handle*) c; int r = v_close( *h ); delete h; return r; }

static FILE* v_fopen_cookie( const char* path, const char* mode )
{
    Guard g;
    bool rd, wr, creat, trunc, app, excl;
    Handle h;
    if( !parse_mode( mode, rd, wr, creat, trunc, app, excl ) ) return nullptr;
    if( !v_open( path, rd, wr, creat, trunc, app, excl, h ) ) return nullptr;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    return fopencookie( new Handle( h ), rd && wr ? "r+" : rd ? "r" : "w", io );
}
} // namespace seam

using namespace seam;

// ---------------------------------------------------------------- C library
extern "C" {

// The C++ file streams only take the descriptor out of the FILE they open; any
// other caller uses it through stdio and gets a stream backed by the same disk.
static bool from_libstdcxx( void* ra )
{
    Dl_info i;
    return dladdr( ra, &i ) && i.dli_fname && strstr( i.dli_fname, "libstdc++" );
}

FILE* fopen64( const char* path, const char* mode )
{
    if( is_sim( path ) ) return from_libstdcxx( __builtin_return_address( 0 ) ) ? v_fopen_fd( path, mode ) : v_fopen_cookie( path, mode );
    static auto r = real<FILE* (*)( const char*, const char* )>( "fopen64" );
    return r( path, mode );
}

FILE* fopen( const char* path, const char* mode )
{
    if( is_sim( path ) ) return from_libstdcxx( __builtin_return_address( 0 ) ) ? v_fopen_fd( path, mode ) : v_fopen_cookie( path, mode );
    static auto r = real<FILE* (*)( const char*, const char* )>( "fopen" );
    return r( path, mode );
}

static int v_open_fd( const char* path, int fl )
{
    Guard g;
    int acc = fl & O_ACCMODE;
    Handle h;
    if( !v_open( path, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, ( fl & O_EXCL ) && ( fl & O_CREAT ), h ) ) return -1;
    static auto ro = real<int (*)( const char*, int, ... )>( "open" );
    int fd = ro( "/dev/null", O_RDWR );
    if( fd < 0 ) abort();
    handles[fd] = h;
    return fd;
}
int open( const char* path, int fl, ... )
{
    if( is_sim( path ) ) return v_open_fd( path, fl );
    static auto r = real<int (*)( const char*, int, ... )>( "open" );
    va_list a; va_start( a, fl ); int m = va_arg( a, int ); va_end( a );
    return r( path, fl, m );
}
int open64( const char* path, int fl, ... )
{
    if( is_sim( path ) ) return v_open_fd( path, fl );
    static auto r = real<int (*)( const char*, int, ... )>( "open64" );
    va_list a; va_start( a, fl ); int m = va_arg( a, int ); va_end( a );
    return r( path, fl, m );
}
int close( int fd )
{
    static auto r = real<int (*)( int )>( "close" );
    Handle* h = handles.empty() ? nullptr : find( fd );
    if( !h ) return r( fd );
    Guard g;
    Handle k = *h;
    handles.erase( fd );
    r( fd );
    return v_close( k );
}
int fsync( int fd )
{
    static auto r = real<int (*)( int )>( "fsync" );
    Handle* h = handles.empty() ? nullptr : find( fd );
    if( !h ) return r( fd );
    Guard g;
    if( isCrashed ) { errno = EIO; return -1; }
    const Fault* f = hit( 'f' );
    if( f ) { errno = err_of( f->kind ); return -1; }
    return 0;
}
FILE* fdopen( int fd, const char* mode ) __THROW
{
    static auto r = real<FILE* (*)( int, const char* )>( "fdopen" );
    Handle* h = handles.empty() ? nullptr : find( fd );
    if( !h ) return r( fd, mode );
    Guard g;
    if( from_libstdcxx( __builtin_return_address( 0 ) ) ) { FILE* fp = r( fd, "r+" ); byFile[fp] = fd; return fp; }
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    Handle* k = new Handle( *h );
    handles.erase( fd );
    return fopencookie( k, k->rd && k->wr ? "r+" : k->rd ? "r" : "w", io );
}
off_t lseek( int fd, off_t o, int w ) __THROW
{
    static auto r = real<off_t (*)( int, off_t, int )>( "lseek" );
    Handle* h = handles.empty() ? nullptr : find( fd );
    if( !h ) return r( fd, o, w );
    Guard g;
    return v_seek( *h, o, w );
}

int fclose( FILE* fp )
{
    static auto r = real<int (*)( FILE* )>( "fclose" );
    auto i = byFile.find( fp );
    if( i == byFile.end() ) return r( fp );
    Guard g;
    int fd = i->second;
    Handle h = handles[fd];
    handles.erase( fd );
    byFile.erase( i );
    r( fp );
    errno = 0;
    return v_close( h );
}

ssize_t read( int fd, void* b, size_t n )
{
    static auto r = real<ssize_t (*)( int, void*, size_t )>( "read" );
    Handle* h = handles.empty() ? nullptr : find( fd );
    if( !h ) return r( fd, b, n );
    Guard g;
    return v_read( *h, b, n );
}

ssize_t write( int fd, const void* b, size_t n )
{
    static auto r = real<ssize_t (*)( int, const void*, size_t )>( "write" );
    Handle* h = handles.empty() ? nullptr : find( fd );
    if( !h ) return r( fd, b, n );
    Guard g;
    return v_write( *h, b, n );
}

ssize_t writev( int fd, const struct iovec* v, int c )
{
    static auto r = real<ssize_t (*)( int, const struct iovec*, int )>( "writev" );
    Handle* h = handles.empty() ? nullptr : find( fd );
    if( !h ) return r( fd, v, c );
    Guard g;
    std::string all;
    for( int i = 0; i < c; ++i ) all.append( (const char*) v[i].iov_base, v[i].iov_len );
    return v_write( *h, all.data(), all.size() );
}

off64_t lseek64( int fd, off64_t o, int w ) __THROW
{
    static auto r = real<off64_t (*)( int, off64_t, int )>( "lseek64" );
    Handle* h = handles.empty() ? nullptr : find( fd );
    if( !h ) return r( fd, o, w );
    Guard g;
    return v_seek( *h, o, w );
}

int access( const char* p, int m ) __THROW
{
    static auto r = real<int (*)( const char*, int )>( "access" );
    if( !is_sim( p ) ) return r( p, m );
    auto i = files.find( p );
    if( i == files.end() ) { errno = ENOENT; return -1; }
    if( ( ( m & R_OK ) && !i->second->readable ) || ( ( m & W_OK ) && !i->second->writable ) ) { errno = EACCES; return -1; }
    return 0;
}

int stat( const char* __restrict p, struct stat* __restrict st ) __THROW
{
    static auto r = real<int (*)( const char*, struct stat* )>( "stat" );
    if( !is_sim( p ) ) return r( p, st );
    auto i = files.find( p );
    if( i == files.end() ) { errno = ENOENT; return -1; }
    memset( st, 0, sizeof( *st ) );
    st->st_mode = S_IFREG | 0644;
    st->st_size = i->second->data.size();
    st->st_nlink = 1;
    return 0;
}

int rename( const char* a, const char* b ) __THROW
{
    static auto r = real<int (*)( const char*, const char* )>( "rename" );
    if( !is_sim( a ) || !is_sim( b ) ) return r( a, b );
    if( isCrashed ) { errno = EIO; return -1; }
    auto i = files.find( a );
    if( i == files.end() ) { errno = ENOENT; return -1; }
    auto n = i->second;
    files.erase( i );
    files[b] = n;
    return 0;
}

int unlink( const char* a ) __THROW
{
    static auto r = real<int (*)( const char* )>( "unlink" );
    if( !is_sim( a ) ) return r( a );
    if( isCrashed ) { errno = EIO; return -1; }
    if( !files.erase( a ) ) { errno = ENOENT; return -1; }
    return 0;
}

int remove( const char* a ) __THROW
{
    static auto r = real<int (*)( const char* )>( "remove" );
    return is_sim( a ) ? unlink( a ) : r( a );
}

static int64_t tick()
{
    int64_t t = seam::now;
    if( readings.size() < 10000 ) { Guard g; readings.push_back( t ); }
    if( !clock_steps.empty() )
    {
        int64_t d = clock_steps[clock_reads % clock_steps.size()];
        seam::now += d;
        if( d < 0 ) ++g_stats.faults["clock-back"];
        else if( d == 0 ) ++g_stats.faults["clock-frozen"];
        else if( d > 3600 ) ++g_stats.faults["clock-jump"];
        g_stats.sim_seconds += d < 0 ? (uint64_t) -d : (uint64_t) d;
    }
    ++clock_reads;
    return t;
}

time_t time( time_t* out ) __THROW
{
    static auto r = real<time_t (*)( time_t* )>( "time" );
    if( !clock_on ) return r( out );
    if( yield_hook && !inSeam ) yield_hook( "time" );
    time_t t = (time_t) tick();
    if( out ) *out = t;
    return t;
}

int gettimeofday( struct timeval* __restrict tv, void* __restrict tz ) __THROW
{
    static auto r = real<int (*)( struct timeval*, void* )>( "gettimeofday" );
    if( !clock_on ) return r( tv, tz );
    tv->tv_sec = (time_t) tick();
    tv->tv_usec = 0;
    return 0;
}

int clock_gettime( clockid_t c, struct timespec* ts ) __THROW
{
    static auto r = real<int (*)( clockid_t, struct timespec* )>( "clock_gettime" );
    if( !clock_on || c != CLOCK_REALTIME ) return r( c, ts );
    ts->tv_sec = (time_t) tick();
    ts->tv_nsec = 0;
    return 0;
}

} // extern "C"

// ---------------------------------------------------------------- allocator
typedef void ( *Dq )( void* );
static void* sim_alloc( size_t n, const char* sym, bool nothrow )
{
    typedef void* ( *A )( size_t );
    static A ra = nullptr, rb = nullptr;
    if( !ra ) { ra = (A) dlsym( RTLD_NEXT, "_Znwm" ); rb = (A) dlsym( RTLD_NEXT, "_Znam" ); }
    bool arr = sym[3] == 'a';
    if( allocArmed && !inSeam )
    {
        ++allocCount;
        if( allocCount == allocFailAt || ( allocSticky && allocCount >= allocFailAt ) )
        {
            anyFired = true;
            ++g_stats.faults["alloc-fail"];
            if( !allocSticky ) allocArmed = false;
            if( nothrow ) return nullptr;
            throw std::bad_alloc();
        }
    }
    if( n > alloc_limit )
    {
        if( nothrow ) return nullptr;
        throw std::bad_alloc();
    }
    void* p = arr ? rb( n ) : ra( n );
    if( spacer && !inSeam && n < 4096 )
    {   // another place in memory: the second of two blocks is sometimes the one handed out
        void* q = arr ? rb( n ) : ra( n );
        lot = mix64( lot, (uint64_t) spacer );
        if( lot & 1 ) std::swap( p, q );
        static Dq fd = nullptr, fa = nullptr;
        if( !fd ) { fd = (Dq) dlsym( RTLD_NEXT, "_ZdlPv" ); fa = (Dq) dlsym( RTLD_NEXT, "_ZdaPv" ); }
        arr ? fa( q ) : fd( q );
    }
    if( junk_on && !inSeam ) memset( p, junk, n );
    if( !inSeam ) ++live_allocs;
    return p;
}

void* operator new( size_t n ) { return sim_alloc( n, "_Znw", false ); }
void* operator new[]( size_t n ) { return sim_alloc( n, "_Zna", false ); }
void* operator new( size_t n, const std::nothrow_t& ) noexcept { try { return sim_alloc( n, "_Znw", true ); } catch( ... ) { return nullptr; } }
void* operator new[]( size_t n, const std::nothrow_t& ) noexcept { try { return sim_alloc( n, "_Zna", true ); } catch( ... ) { return nullptr; } }
typedef void ( *Dp )( void* );
static void sim_free( void* p, bool arr )
{
    static Dp rd = nullptr, ra = nullptr;
    if( !rd ) { rd = (Dp) dlsym( RTLD_NEXT, "_ZdlPv" ); ra = (Dp) dlsym( RTLD_NEXT, "_ZdaPv" ); }
    if( p && !inSeam ) --live_allocs;
    arr ? ra( p ) : rd( p );
}
void operator delete( void* p ) noexcept { sim_free( p, false ); }
void operator delete[]( void* p ) noexcept { sim_free( p, true ); }
void operator delete( void* p, size_t ) noexcept { sim_free( p, false ); }
void operator delete[]( void* p, size_t ) noexcept { sim_free( p, true ); }
void operator delete( void* p, const std::nothrow_t& ) noexcept { sim_free( p, false ); }
void operator delete[]( void* p, const std::nothrow_t& ) noexcept { sim_free( p, true ); }
