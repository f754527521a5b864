#pragma once
#define FRIEND_TEST(a, b)
