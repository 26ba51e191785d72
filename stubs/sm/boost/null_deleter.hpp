#ifndef VERIF_SM_NULL_DELETER_HPP
#define VERIF_SM_NULL_DELETER_HPP
namespace sm { struct null_deleter { template <class T> void operator()(T*) const {} }; }
#endif
