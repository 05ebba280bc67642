// Magic statics: never preempt inside an initialiser (it would block the others).
// (In a file of its own: it must have no local statics itself.)
extern "C" void sim_guard( int d );
extern "C" int __cxa_guard_acquire( long long * g ) noexcept
{
    if( __atomic_load_n( reinterpret_cast<char *>( g ), __ATOMIC_ACQUIRE ) )
        return 0;
    sim_guard( 1 );
    return 1;
}
extern "C" void __cxa_guard_release( long long * g ) noexcept
{
    __atomic_store_n( reinterpret_cast<char *>( g ), 1, __ATOMIC_RELEASE );
    sim_guard( -1 );
}
extern "C" void __cxa_guard_abort( long long * ) noexcept
{
    sim_guard( -1 );
}
