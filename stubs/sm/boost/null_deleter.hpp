#pragma once
namespace sm { struct null_deleter { void operator()(void const*) const; }; }
