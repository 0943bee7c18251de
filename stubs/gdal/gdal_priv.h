#pragma once
#include <cstddef>
#include <string>
typedef enum { GDT_Unknown=0, GDT_Byte=1, GDT_UInt16=2, GDT_Int16=3, GDT_UInt32=4, GDT_Int32=5, GDT_Float32=6, GDT_Float64=7 } GDALDataType;
typedef enum { GA_ReadOnly=0, GA_Update=1 } GDALAccess;
typedef enum { GF_Read=0, GF_Write=1 } GDALRWFlag;
typedef enum { CE_None=0, CE_Debug=1, CE_Warning=2, CE_Failure=3, CE_Fatal=4 } CPLErr;
typedef void* GDALDatasetH;
#define FALSE 0
#define TRUE 1
class GDALRasterBand { public: virtual ~GDALRasterBand();
    CPLErr RasterIO(GDALRWFlag,int,int,int,int,void*,int,int,GDALDataType,int,int);
    GDALDataType GetRasterDataType(); int GetXSize(); int GetYSize();
    virtual double GetNoDataValue(int* ok=NULL); virtual CPLErr SetNoDataValue(double); virtual void SetDescription(const char*); virtual const char* GetDescription() const; virtual const char* GetMetadataItem(const char*,const char* =""); virtual CPLErr SetMetadataItem(const char*,const char*,const char* ="");
    void GetBlockSize(int*,int*); virtual double GetMinimum(int* ok=NULL); virtual double GetMaximum(int* ok=NULL); virtual CPLErr GetStatistics(int,int,double*,double*,double*,double*);
};
class GDALDataset { public: virtual ~GDALDataset();
    int GetRasterXSize(); int GetRasterYSize(); int GetRasterCount(); GDALRasterBand* GetRasterBand(int); virtual CPLErr GetGeoTransform(double*); virtual CPLErr SetGeoTransform(double*); virtual CPLErr SetProjection(const char*); virtual const char* GetProjectionRef(); 
};
class GDALDriver { public: GDALDataset* Create(const char*,int,int,int,GDALDataType,char**); virtual const char* GetMetadataItem(const char*,const char* =""); virtual char** GetMetadata(const char* =""); };
class GDALDriverManager { public: GDALDriver* GetDriverByName(const char*); };
GDALDriverManager* GetGDALDriverManager();
extern "C" { void GDALAllRegister(); GDALDatasetH GDALOpen(const char*, GDALAccess); void GDALClose(GDALDatasetH); void CPLFree(void*); const char* GDALGetDataTypeName(GDALDataType); }
