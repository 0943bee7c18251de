#pragma once
#include <iostream>
typedef float float32; typedef int int32;
#define b2_epsilon 1.19e-7f
struct b2Vec2 { b2Vec2(); b2Vec2(float32,float32); void Set(float32,float32); float32 x,y; float32 Length() const; };
inline b2Vec2 operator-(b2Vec2 const&, b2Vec2 const&); inline b2Vec2 operator+(b2Vec2 const&, b2Vec2 const&); inline b2Vec2 operator*(float32, b2Vec2 const&);
struct b2Rot { b2Rot(); explicit b2Rot(float32); float32 s,c; void SetIdentity(); void Set(float32); };
struct b2Transform { b2Transform(); b2Transform(b2Vec2 const&, b2Rot const&); void SetIdentity(); void Set(b2Vec2 const&, float32); b2Vec2 p; b2Rot q; };
struct b2AABB { b2Vec2 lowerBound, upperBound; bool Contains(b2AABB const&) const; void Combine(b2AABB const&); };
struct b2Shape { virtual ~b2Shape(); int m_type; float32 m_radius; };
struct b2PolygonShape : b2Shape { b2PolygonShape(); void Set(const b2Vec2*, int32); void SetAsBox(float32,float32); void SetAsBox(float32,float32,b2Vec2 const&,float32); bool TestPoint(b2Transform const&, b2Vec2 const&) const; void ComputeAABB(b2AABB*, b2Transform const&, int32) const; b2Vec2 m_vertices[8]; int32 m_count; };
struct b2DistanceProxy { b2DistanceProxy(); void Set(b2Shape const*, int32); };
struct b2SimplexCache { float32 metric; unsigned short count; unsigned char indexA[3], indexB[3]; };
struct b2DistanceInput { b2DistanceProxy proxyA, proxyB; b2Transform transformA, transformB; bool useRadii; };
struct b2DistanceOutput { b2Vec2 pointA, pointB; float32 distance; int32 iterations; };
void b2Distance(b2DistanceOutput*, b2SimplexCache*, b2DistanceInput const*);
struct b2TreeNodeDummy;
class b2BroadPhase { public: b2BroadPhase(); int32 CreateProxy(b2AABB const&, void*); void DestroyProxy(int32); void MoveProxy(int32,b2AABB const&,b2Vec2 const&); void* GetUserData(int32) const; template<typename T> void Query(T* cb, b2AABB const& a) const { cb->QueryCallback(0); } };
