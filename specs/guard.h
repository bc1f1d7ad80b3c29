// The lock discipline: state that changes is only touched under the object's lock and in one critical section
// per operation, state set at construction is never changed, and no lock stays held, exceptions included.
#pragma once
template <class X, class F> static void mutable_state(X& x, F& field, std::mutex& m, const char* name) { __v_guard((const void*)&field, sizeof(F), &m, name, 0); }
template <class F> static void fixed_state(F& field, const char* name) { __v_guard((const void*)&field, sizeof(F), nullptr, name, 2); }
template <class F> static void mutable_elements(F& field, std::mutex& m, const char* name) { __v_guard((const void*)&field, sizeof(F), &m, name, 3); }
template <class F> static void fixed_shape(F& field, const char* name) { __v_guard((const void*)&field, sizeof(F), nullptr, name, 4); }
static void released() { __v_guard_off(); check(__v_locks_held() == 0, "no lock stays held"); }
