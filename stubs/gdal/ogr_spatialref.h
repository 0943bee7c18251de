#pragma once
typedef int OGRErr;
class OGRSpatialReference { public: OGRSpatialReference(const char* =0); int SetUTM(int,int=1); OGRErr SetWellKnownGeogCS(const char*); OGRErr exportToWkt(char**) const; };
