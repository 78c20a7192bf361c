From 3f558d1ceec7288d76ee234445d594d2851aeb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 01/92] fix: compute UUID words without signed integer overflow

---
 src/UUID.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/UUID.cpp b/src/UUID.cpp
index 84e06fe..148d172 100644
--- a/src/UUID.cpp
+++ b/src/UUID.cpp
@@ -365,10 +365,10 @@ void VWFC::Tools::VWUUID::New()
 
 void VWFC::Tools::VWUUID::GetUUID(Uint32& out1, Uint32& out2, Uint32& out3, Uint32& out4) const
 {
-   out1 = (Uint32) ( fData[0] + fData[1] * 256 + fData[2] * 65536 + fData[3] * 16777216 );
-   out2 = (Uint32) ( fData[4] + fData[5] * 256 + fData[6] * 65536 + fData[7] * 16777216 );
-   out3 = (Uint32) ( fData[8] + fData[9] * 256 + fData[10] * 65536 + fData[11] * 16777216 );
-   out4 = (Uint32) ( fData[12] + fData[13] * 256 + fData[14] * 65536 + fData[15] * 16777216 );
+   out1 = (Uint32) ( fData[0] + fData[1] * 256 + fData[2] * 65536 + (Uint32) fData[3] * 16777216 );
+   out2 = (Uint32) ( fData[4] + fData[5] * 256 + fData[6] * 65536 + (Uint32) fData[7] * 16777216 );
+   out3 = (Uint32) ( fData[8] + fData[9] * 256 + fData[10] * 65536 + (Uint32) fData[11] * 16777216 );
+   out4 = (Uint32) ( fData[12] + fData[13] * 256 + fData[14] * 65536 + (Uint32) fData[15] * 16777216 );
 }
 
 void VWFC::Tools::VWUUID::GetUUID(Uint8* pArray, size_t size) const
@@ -383,7 +383,7 @@ void VWFC::Tools::VWUUID::GetUUID(Uint8* pArray, size_t size) const
 
 void VWFC::Tools::VWUUID::GetUUID(VWIID& out) const
 {
-    out.data1		= (Sint32)  ( fData[3] + fData[2] * 256 + fData[1] * 65536 + fData[0] * 16777216 );
+    out.data1		= (Sint32)  ( fData[3] + fData[2] * 256 + fData[1] * 65536 + (Uint32) fData[0] * 16777216 );
     out.data2		= (short) ( fData[5] + fData[4] * 256);
     out.data3		= (short) ( fData[7] + fData[6] * 256);
     out.data4[0]	= fData[ 8 ];
-- 
2.43.0


From eadcc005bd396811fcdce7fdd067f075e2d9c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 02/92] fix: reject an index equal to the count instead of
 reading past the array

---
 src/Implementation/CGdtfAttribute.cpp | 2 +-
 src/Implementation/CGdtfGamut.cpp     | 2 +-
 src/Implementation/CGdtfGeometry.cpp  | 6 +++---
 src/Implementation/CSceneObjImpl.cpp  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Implementation/CGdtfAttribute.cpp b/src/Implementation/CGdtfAttribute.cpp
index c1a3ea9..28985ce 100644
--- a/src/Implementation/CGdtfAttribute.cpp
+++ b/src/Implementation/CGdtfAttribute.cpp
@@ -293,7 +293,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfAttributeImpl::GetSubPhysicalUnit
 	if ( ! fAttribute) { return kVCOMError_NotInitialized; }
 	
 	// check overflow
-	if (fAttribute->GetSubPhysicalUnitArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (fAttribute->GetSubPhysicalUnitArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
diff --git a/src/Implementation/CGdtfGamut.cpp b/src/Implementation/CGdtfGamut.cpp
index b64e739..78b6bbb 100644
--- a/src/Implementation/CGdtfGamut.cpp
+++ b/src/Implementation/CGdtfGamut.cpp
@@ -53,7 +53,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGamutImpl::GetPointAt(size_t at,
 	if ( ! fGamut) { return kVCOMError_NotInitialized; }
 	
 	// check overflow
-	if (fGamut->GetGamutPoints().size() < at) { return kVCOMError_OutOfBounds; }
+	if (fGamut->GetGamutPoints().size() <= at) { return kVCOMError_OutOfBounds; }
 
 	CCieColorPtr colorPtr = fGamut->GetGamutPoints()[at];
 
diff --git a/src/Implementation/CGdtfGeometry.cpp b/src/Implementation/CGdtfGeometry.cpp
index 75bac24..5eda77a 100644
--- a/src/Implementation/CGdtfGeometry.cpp
+++ b/src/Implementation/CGdtfGeometry.cpp
@@ -790,7 +790,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetBreakAt(size_t a
 	if ( ! ref) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (ref->GetBreakArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (ref->GetBreakArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
@@ -1510,7 +1510,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetLaserProtocolAt(
 	if ( ! laser) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (laser->GetLaserProtocolArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (laser->GetLaserProtocolArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
@@ -2133,7 +2133,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetPinPatchAt(size_
 	if ( ! wiringObject) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (wiringObject->GetPinPatchArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (wiringObject->GetPinPatchArray().size() <= at) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 1da2d4f..ad944e8 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1034,7 +1034,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 	if( ! fixture) return kVCOMError_NoFixtureObj;
 
 	// Check the psotion of the array
-	if (at > fixture->GetProtocolsArray().size() )
+	if (at >= fixture->GetProtocolsArray().size() )
 	{
 		DSTOP((kEveryone, "Array overflow"));
 		return kVCOMError_Failed;
@@ -1087,7 +1087,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetAdressAt(size_t at,
 	if( ! fixture) return kVCOMError_NoFixtureObj;
 	
 	// Check the psotion of the array
-	if (at > fixture->GetAdressesArray().size())
+	if (at >= fixture->GetAdressesArray().size())
 	{
 		DSTOP((kEveryone, "Array overflow"));
 		return kVCOMError_Failed;
-- 
2.43.0


From 704bac51e0214c66670f733c2deb62aa8c03daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 03/92] fix: give the plain data members of GDTF and MVR
 objects defined initial values

---
 src/GDTFManager.h       | 86 ++++++++++++++++++++---------------------
 src/GdtfError.h         |  4 +-
 src/SceneDataExchange.h | 18 ++++-----
 3 files changed, 54 insertions(+), 54 deletions(-)

diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index c060b09..a7356b7 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -375,13 +375,13 @@ namespace SceneData
 												GdtfWheelSlotAnimationSystem();
 												~GdtfWheelSlotAnimationSystem();
 	private:
-		double									fP1_X;
-		double									fP1_Y;
-		double									fP2_X;
-		double									fP2_Y;
-		double									fP3_X;
-		double									fP3_Y;
-		double									fRadius;
+		double									fP1_X = 0.0;
+		double									fP1_Y = 0.0;
+		double									fP2_X = 0.0;
+		double									fP2_Y = 0.0;
+		double									fP3_X = 0.0;
+		double									fP3_Y = 0.0;
+		double									fRadius = 0.0;
 
     public:
         double									GetP1_X();
@@ -975,9 +975,9 @@ namespace SceneData
 												~GdtfGeometryDisplay();
 	private:
 		TXString								fTexture;
-		size_t									fWidth;
-		size_t									fHeight;
-		bool 									fIsCurved;
+		size_t									fWidth = 0;
+		size_t									fHeight = 0;
+		bool 									fIsCurved = false;
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1031,15 +1031,15 @@ namespace SceneData
 	
 	private:
 		EGdtfLaserColorType 					fColorType;
-		double									fColor; //Wavelength
-		double									fOutputStrength;
+		double									fColor = 0.0; //Wavelength
+		double									fOutputStrength = 0.0;
 		GdtfPhysicalEmitter*					fEmitter;
-		double 									fBeamDiameter;
-		double									fBeamDivergenceMin;
-		double									fBeamDivergenceMax;
-		double									fScanAnglePan;
-		double									fScanAngleTilt;
-		double									fScanSpeed;
+		double 									fBeamDiameter = 0.0;
+		double									fBeamDivergenceMin = 0.0;
+		double									fBeamDivergenceMax = 0.0;
+		double									fScanAnglePan = 0.0;
+		double									fScanAngleTilt = 0.0;
+		double									fScanSpeed = 0.0;
 
 		TXString 								fUnresolvedEmitter;
 
@@ -1094,8 +1094,8 @@ namespace SceneData
 												~GdtfPinPatch();
 	private:
 		GdtfGeometryWiringObjectPtr				fToWiringObject;
-		size_t									fFromPin;
-		size_t									fToPin;
+		size_t									fFromPin = 0;
+		size_t									fToPin = 0;
 
 		TXString								fUnresolvedWiringObject;
 
@@ -1209,7 +1209,7 @@ namespace SceneData
 												GdtfGeometryInventory(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent);
 												~GdtfGeometryInventory();
 	private:
-		size_t									fCount;
+		size_t									fCount = 0;
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1234,10 +1234,10 @@ namespace SceneData
 	
 	private:
 		GdtfGeometry*   						fLinkedGeometry;
-		EGdtfStructureType 						fStructureType;
-		EGdtfCrossSectionType 					fCrossSectionType;
-		double									fCrossSectionHeight; //Tube
-		double									fCrossSectionWallThickness; //Tube
+		EGdtfStructureType 						fStructureType = EGdtfStructureType::CenterLineBased;
+		EGdtfCrossSectionType 					fCrossSectionType = EGdtfCrossSectionType::TrussFramework;
+		double									fCrossSectionHeight = 0.0; //Tube
+		double									fCrossSectionWallThickness = 0.0; //Tube
 		TXString								fTrussCrossSection; //TrussFramework
 
 		TXString 								fUnresolvedLinkedGeometry;
@@ -1279,21 +1279,21 @@ namespace SceneData
 												~GdtfGeometrySupport();
 	
 	private:
-		EGdtfSupportType						fSupportType;
-		double 									fCapacityX;
-		double 									fCapacityY;
-		double 									fCapacityZ;
-		double 									fCapacityXX;
-		double 									fCapacityYY;
-		double 									fCapacityZZ;
+		EGdtfSupportType						fSupportType = EGdtfSupportType::Rope;
+		double 									fCapacityX = 0.0;
+		double 									fCapacityY = 0.0;
+		double 									fCapacityZ = 0.0;
+		double 									fCapacityXX = 0.0;
+		double 									fCapacityYY = 0.0;
+		double 									fCapacityZZ = 0.0;
 		TXString 								fRopeCrossSection; 	//Rope
 		VWPoint3D 								fRopeOffset; 		//Rope
-		double 									fResistanceX;		//GroundSupport
-		double 									fResistanceY;		//GroundSupport
-		double 									fResistanceZ;		//GroundSupport
-		double 									fResistanceXX;		//GroundSupport
-		double 									fResistanceYY;		//GroundSupport
-		double 									fResistanceZZ;		//GroundSupport
+		double 									fResistanceX = 0.0;		//GroundSupport
+		double 									fResistanceY = 0.0;		//GroundSupport
+		double 									fResistanceZ = 0.0;		//GroundSupport
+		double 									fResistanceXX = 0.0;		//GroundSupport
+		double 									fResistanceYY = 0.0;		//GroundSupport
+		double 									fResistanceZZ = 0.0;		//GroundSupport
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1942,7 +1942,7 @@ namespace SceneData
 												~GdtfMacroDMXValue();
 	private:
 		TXString 								funresolvedValue;
-		DmxValue								fValue;
+		DmxValue								fValue = 0;
 		TXString								funresolvedDMXChannel;
 		GdtfDmxChannelPtr						fDMXChannel;
 	public:
@@ -1973,7 +1973,7 @@ namespace SceneData
 												GdtfMacroDMXStep(double duration);
 												~GdtfMacroDMXStep();
 	private:
-		double									fDuration;
+		double									fDuration = 0.0;
 		// Childs
 		TGdtfMacroDMXValueArray					fDMXValues;
 	public:
@@ -2022,7 +2022,7 @@ namespace SceneData
 												~GdtfMacroVisualValue();
 	private:
 		TXString 								funresolvedValue;
-		DmxValue								fDmxValue;
+		DmxValue								fDmxValue = 0;
 		TXString								fUnresolvedChannelFunctionRef;
 		GdtfDmxChannelFunctionPtr				fChannelFunctionRef;
 	public:
@@ -2341,8 +2341,8 @@ namespace SceneData
 												GdtfMap(Uint32 key, Uint32 value);
 												~GdtfMap();
     private:
-        Uint32									fKey;
-		Uint32									fValue;
+        Uint32									fKey = 0;
+		Uint32									fValue = 0;
     public:
         virtual EGdtfObjectType					GetObjectType();
         // Getters
diff --git a/src/GdtfError.h b/src/GdtfError.h
index f798e89..22ca84b 100644
--- a/src/GdtfError.h
+++ b/src/GdtfError.h
@@ -24,8 +24,8 @@ private:
 	GdtfDefines::EGdtfParsingError fErrorType;
 	TXString					   fErrorMessage;
 	TXString					   fNodeName;
-	size_t						   fLineNumber;
-	size_t						   fColumn;
+	size_t						   fLineNumber = 0;
+	size_t						   fColumn = 0;
 	TXString					   fObjectName;
 	
 public:
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index afbacc2..cfee0ed 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -274,7 +274,7 @@ namespace SceneData
 	private:
 		TXString 						fValue;
 		TXString 						fLinkedGeometry;
-		GdtfDefines::ESourceType		fType;
+		GdtfDefines::ESourceType		fType = GdtfDefines::ESourceType::NDI;
 		
 	public:
 		virtual const TXString& 		GetValue();
@@ -346,11 +346,11 @@ namespace SceneData
 	private:
 
 		SceneDataGUID					fLinkedDefUuid;
-		Uint32							fUx;
-		Uint32							fUy;
-		Uint32							fOx;
-		Uint32							fOy;
-		double							fRz;
+		Uint32							fUx = 0;
+		Uint32							fUy = 0;
+		Uint32							fOx = 0;
+		Uint32							fOy = 0;
+		double							fRz = 0.0;
 		
 	public:
 		virtual SceneDataGUID			GetLinkedDefUuid();
@@ -919,7 +919,7 @@ namespace SceneData
 	
 	private:
 		SceneDataSourceObjPtr 				fSource;
-		EScaleHandlingType					fScaleHandling;
+		EScaleHandlingType					fScaleHandling = EScaleHandlingType::ScaleKeepRatio;
 
 	public:
 		virtual SceneDataSourceObjPtr 		GetVideoSource();
@@ -991,7 +991,7 @@ namespace SceneData
 		
 		// File Operation Handeling
 		IFolderIdentifierPtr				fWorkingFolder;
-		bool								fUndoStarted;
+		bool								fUndoStarted = false;
 		//
         TFileIdentifierPtrArray				f3DS_FilesToAdd;
         TFileIdentifierPtrArray				f3DSLow_FilesToAdd;
@@ -1015,7 +1015,7 @@ namespace SceneData
 		TSymDefMap							fSymDefMap;
 		
 		//
-		size_t								fCountExportedGeometryProviders;
+		size_t								fCountExportedGeometryProviders = 0;
 		TXString							fProvider;
 		TXString							fProviderVersion;
 
-- 
2.43.0


From 42d541aa521198c4070a0d4799eadd936fb5f01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 04/92] fix: give the folder specifier enumeration an
 underlying type that holds its negative values

---
 src/FolderSpecifiers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FolderSpecifiers.h b/src/FolderSpecifiers.h
index 8fef4ed..5a193b5 100644
--- a/src/FolderSpecifiers.h
+++ b/src/FolderSpecifiers.h
@@ -7,7 +7,7 @@
 #ifndef FOLDER_SPECIFIER_ENUM
 #define FOLDER_SPECIFIER_ENUM
 
-enum EFolderSpecifier {
+enum EFolderSpecifier : int {
 	kRootFolderSpecifier	= 0,
 	kApplicationFolder		= 1,
 	kExternalsFolder		= 2,
-- 
2.43.0


From 899f14ca9aa731b04b20cf8002d8017284c765bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 05/92] fix: set the connector's type, not its name, when its
 type is set

---
 src/Implementation/CGdtfConnector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Implementation/CGdtfConnector.cpp b/src/Implementation/CGdtfConnector.cpp
index 69ae7d0..9ea1a32 100644
--- a/src/Implementation/CGdtfConnector.cpp
+++ b/src/Implementation/CGdtfConnector.cpp
@@ -82,7 +82,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfConnectorImpl::SetType(MvrString
 	// Check if valid
 	if(!fConnector) return kVCOMError_NotInitialized;
 
-    fConnector->SetName(type);
+    fConnector->SetType(type);
 
 	return kVCOMError_NoError;
 }
-- 
2.43.0


From ced727af91fb6d4acb52bf61f2309ebe6e1f1c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 06/92] fix: accept the Display attributes that the library
 itself writes

---
 src/GDTFManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 6d3c762..d384db6 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -3037,6 +3037,9 @@ void GdtfGeometryDisplay::OnErrorCheck(const IXMLFileNodePtr& pNode)
 	optional.push_back(XML_GDTF_GeometryModelRef);
 	needed.push_back(XML_GDTF_GeometryMatrix);
 	needed.push_back(XML_GDTF_DisplayTexture);
+	optional.push_back(XML_GDTF_DisplayWidth);
+	optional.push_back(XML_GDTF_DisplayHeight);
+	optional.push_back(XML_GDTF_DisplayIsCurved);
 
 	//------------------------------------------------------------------------------------
 	// Check Attributes for node
-- 
2.43.0


From 7215af3bb122a2a13390ec1af1478dbebee55309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 07/92] fix: a break that only virtual channels use has no DMX
 footprint

---
 src/GDTFManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index d384db6..2a4dfca 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5414,7 +5414,10 @@ size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
 		}
 	}
 
-	DMXAddress max = 0, min = 512;
+	// No channel occupies an address on this break (e.g. only virtual channels)
+	if(addresses.empty()) { return 0; }
+
+	DMXAddress max = addresses.front(), min = addresses.front();
 	for (DMXAddress adr : addresses)
 	{
 		if(adr > max) max = adr;
-- 
2.43.0


From 1dea5542411fbe090377371b5b21c4c318560e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 08/92] fix: count overwrite breaks of the whole referenced
 geometry tree and tolerate references without matching breaks

---
 src/GDTFManager.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 2a4dfca..fb61cb5 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5186,6 +5186,18 @@ const TGdtfDmxRelationArray& GdtfDmxMode::GetDmxRelations()
 	return fRelations;
 }
 
+static bool IsInGeometryTree(GdtfGeometryPtr tree, GdtfGeometryPtr geometry)
+{
+	if(tree == nullptr || geometry == nullptr) { return false; }
+	if(tree == geometry)                       { return true;  }
+
+	for (GdtfGeometryPtr child : tree->GetInternalGeometries())
+	{
+		if(IsInGeometryTree(child, geometry)) { return true; }
+	}
+	return false;
+}
+
 TSint32Array GdtfDmxMode::GetBreakArray() const
 {
 	//------------------------------------------------------------------------------------------------------------
@@ -5222,7 +5234,8 @@ TSint32Array GdtfDmxMode::GetBreakArray() const
 			{
 				GdtfGeometryReferencePtr geoRef = static_cast<GdtfGeometryReferencePtr>( geometry );
 				ASSERTN( kEveryone, geoRef != nullptr );
-				if ( geoRef )
+				// Follow every reference only once, they may refer to each other in a circle
+				if ( geoRef && std::find(geometryRefs.begin(), geometryRefs.end(), geoRef) == geometryRefs.end() )
 				{
 					geometrysToCheck.push_back( geoRef->GetLinkedGeometry() );
 					geometryRefs.push_back( geoRef );
@@ -5242,9 +5255,9 @@ TSint32Array GdtfDmxMode::GetBreakArray() const
 		{
 			for(GdtfGeometryReferencePtr geoRef : geometryRefs)
 			{
-				if(geoRef->GetLinkedGeometry() == channel->GetGeomRef())
+				TGdtfBreakArray refBreaks = geoRef->GetBreakArray();
+				if( ! refBreaks.empty() && IsInGeometryTree(geoRef->GetLinkedGeometry(), channel->GetGeomRef()))
 				{
-					TGdtfBreakArray refBreaks = geoRef->GetBreakArray();
 					if(std::find(breaks.begin(), breaks.end(), refBreaks.back()->GetDmxBreak()) == breaks.end())
 					{
 						breaks.push_back(refBreaks.back()->GetDmxBreak());
@@ -5351,9 +5364,9 @@ size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
 
 			TSint32Array::iterator foundIndex = std::find(breakIdsOfReference.begin(), breakIdsOfReference.end(), breakId);
 			// if the reference contains geometries that are linked to a dmx channel that has a matching break, then add the address + offset to the footprint
-			if(foundIndex != breakIdsOfReference.end())
+			size_t indexOfBreak = std::distance(breakIdsOfReference.begin(),foundIndex);
+			if(foundIndex != breakIdsOfReference.end() && indexOfBreak < geoRef->GetBreakArray().size())
 			{
-				size_t 				indexOfBreak 				= std::distance(breakIdsOfReference.begin(),foundIndex);
 				size_t 				offset 						= geoRef->GetBreakArray()[indexOfBreak]->GetDmxAddress()-1;
 				TGdtfGeometryArray  geometriesInReferencedTree 	= {refedGeo};
 
@@ -5378,7 +5391,7 @@ size_t GdtfDmxMode::GetFootPrintForBreak(size_t breakId)
 			}
 
 			// if the channel of a child geometry has the break value overwrite and the last break of the ref has a matching break Id, then add addresses + offset 
-			if(overwrite)
+			if(overwrite && ! geoRef->GetBreakArray().empty())
 			{
 				GdtfBreakPtr overwriteBreak = geoRef->GetBreakArray().back();
 				if(overwriteBreak->GetDmxBreak() == (Sint32)breakId)
-- 
2.43.0


From a02213c3885670c2593ad4348d87eeb98ad22392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 09/92] fix: a beam has a radius of 0.05 metres by default

---
 src/GDTFManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index fb61cb5..4b2e9e8 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -4426,7 +4426,7 @@ void GdtfGeometryLamp::InitializeMembersWithDefaultsVals()
 	fColorTemperature	= 6000;
 	fBeamAngle			= 25;
     fFieldAngle         = 25;
-	fBeamRadius			= 50; //0.05m
+	fBeamRadius			= 0.05;
 	fThrowRatio			= 1;
 	fRectangleRatio		= 1.7777;
 	fBeamType			= EGdtfBeamType::eGdtfBeamType_Wash;
-- 
2.43.0


From d75fddfaa8459a7658400f8c497320f8654d7443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:31 +0000
Subject: [PATCH 10/92] fix: resolve a sub physical unit within the attribute
 of its function

---
 src/GDTFManager.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 4b2e9e8..33255d6 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -9298,7 +9298,16 @@ void GdtfFixture::ResolveDmxSubChannelSetRefs(GdtfDmxChannelFunctionPtr channelF
         TXString unresolvedSubPhysicalUnitRef = subChannelSet->GetUnresolvedSubPhysicalUnitRef();
         if (!unresolvedSubPhysicalUnitRef.IsEmpty()) 
         {
-            GdtfSubPhysicalUnit* subPhysicalUnit = getSubPhysicalUnitByRef(unresolvedSubPhysicalUnitRef);
+            // The reference starts at the attribute of the function
+            GdtfSubPhysicalUnit* subPhysicalUnit = nullptr;
+            if (GdtfAttributePtr attribute = channelFunction->GetAttribute())
+            {
+                for (GdtfSubPhysicalUnitPtr unit : attribute->GetSubPhysicalUnitArray())
+                {
+                    if (unit->GetNodeReference() == unresolvedSubPhysicalUnitRef) { subPhysicalUnit = unit; break; }
+                }
+            }
+            if (subPhysicalUnit == nullptr) { subPhysicalUnit = getSubPhysicalUnitByRef(unresolvedSubPhysicalUnitRef); }
             subChannelSet->SetSubPhysicalUnit(subPhysicalUnit);
         }
 
-- 
2.43.0


From 2ce19e9ad2a5b91e77b753990ef0a008d6757b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:56 +0000
Subject: [PATCH 11/92] fix: do not take a geometry of another type for a
 wiring object

---
 src/GDTFManager.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 33255d6..d20db21 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8639,8 +8639,12 @@ void GdtfFixture::ResolveGeometryRefs_Recursive(GdtfGeometryPtr geometry)
 				if ( ! unresolvedWiringObject.IsEmpty())
 				{
 					GdtfGeometryPtr wiringObjectGeo = ResolveGeometryRef(unresolvedWiringObject, fGeometries);
-					GdtfGeometryWiringObjectPtr toWiringObject = static_cast<GdtfGeometryWiringObjectPtr>(wiringObjectGeo);
-					pinPatch->SetToWiringObject(toWiringObject);
+					// Only a wiring object can be patched, other geometries are no valid target
+					if (wiringObjectGeo && wiringObjectGeo->GetObjectType() == eGdtfGeometryWiringObject)
+					{
+						GdtfGeometryWiringObjectPtr toWiringObject = static_cast<GdtfGeometryWiringObjectPtr>(wiringObjectGeo);
+						pinPatch->SetToWiringObject(toWiringObject);
+					}
 				}
 			}
 		}
-- 
2.43.0


From 0898a93686213cf5fe59adaf369175f4039ff78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 12/92] fix: write documents that hold unresolved references
 instead of dereferencing null

---
 src/GDTFManager.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index d20db21..454965d 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5670,7 +5670,7 @@ const TXString& GdtfDmxChannel::GetName()
 		TXString dmxChannelName;
 		if(fGeomRef) { dmxChannelName += fGeomRef->GetName(); }
 		dmxChannelName += "_";
-		if(fLogicalChannels.size() > 0) { dmxChannelName += fLogicalChannels[0]->GetAttribute()->GetName(); }
+		if(fLogicalChannels.size() > 0 && fLogicalChannels[0]->GetAttribute()) { dmxChannelName += fLogicalChannels[0]->GetAttribute()->GetName(); }
 		
 		this->SetName(dmxChannelName);
 
@@ -11076,7 +11076,7 @@ void GdtfDMXPersonality::OnPrintToFile(IXMLFileNodePtr pNode)
     //------------------------------------------------------------------------------------
     // Print the attributes
     pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityValue, GdtfConverter::ConvertHexValue(fValue));
-    pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode->GetModeName() );
+    if (fDMXMode) { pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode->GetModeName() ); }
 }
 
 void GdtfDMXPersonality::OnReadFromNode(const IXMLFileNodePtr& pNode)
@@ -11843,7 +11843,7 @@ void SceneData::GdtfMacroDMXValue::OnPrintToFile(IXMLFileNodePtr pNode)
 	// Print the attributes
 	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrValue, GdtfConverter::ConvertDMXValue(fValue, resolution));
 	//
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, fDMXChannel->GetNodeReference() );
+	if(fDMXChannel) { pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, fDMXChannel->GetNodeReference() ); }
 }
 
 void SceneData::GdtfMacroDMXValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
@@ -12154,7 +12154,7 @@ void SceneData::GdtfMacroVisualValue::OnPrintToFile(IXMLFileNodePtr pNode)
 	//------------------------------------------------------------------------------------
 	// Print the attributes
 	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrValue, GdtfConverter::ConvertDMXValue(fDmxValue, resolution));
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fChannelFunctionRef->GetNodeReference() );
+	if(fChannelFunctionRef) { pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fChannelFunctionRef->GetNodeReference() ); }
 }
 
 void SceneData::GdtfMacroVisualValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
-- 
2.43.0


From 7e6fd5c48f1ee9ffb6429ee0629bd4eb47fe987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 13/92] fix: check the attributes of filters, measurements,
 personalities and software versions

---
 src/GDTFManager.cpp | 73 +++++++++++++++++++++++++++++++++++++++++++++
 src/GDTFManager.h   |  4 +++
 2 files changed, 77 insertions(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 454965d..4e7b768 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -11094,6 +11094,24 @@ void GdtfDMXPersonality::OnReadFromNode(const IXMLFileNodePtr& pNode)
     pNode->GetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode_Unresolved);
 }
 
+void GdtfDMXPersonality::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_DMXPersonalityValue);
+	needed.push_back(XML_GDTF_DMXPersonalityDMXMode);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
 SceneData::GdtfProtocols::GdtfProtocols()
 {
 	fRDM              = nullptr;
@@ -12276,6 +12294,23 @@ void SceneData::GdtfSoftwareVersionID::OnReadFromNode(const IXMLFileNodePtr & pN
     });
 }
 
+void SceneData::GdtfSoftwareVersionID::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_SoftwareVersionID_Value);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
 //------------------------------------------------------------------------------------
 // GdtfGamut
 GdtfGamut::GdtfGamut()
@@ -13082,6 +13117,24 @@ void SceneData::GdtfFilter::OnReadFromNode(const IXMLFileNodePtr & pNode)
     });
 }
 
+void SceneData::GdtfFilter::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_Filter_Name);
+	needed.push_back(XML_GDTF_FilterColor);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
 TXString SceneData::GdtfFilter::GetNodeReference() 
 {
     return GetName();
@@ -13219,6 +13272,26 @@ void SceneData::GdtfMeasurement::OnReadFromNode(const IXMLFileNodePtr & pNode)
     });
 }
 
+void SceneData::GdtfMeasurement::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+	needed.push_back(XML_GDTF_MeasurementPhysical);
+	optional.push_back(XML_GDTF_MeasurementLuminousIntensity);
+	optional.push_back(XML_GDTF_MeasurementTransmission);
+	optional.push_back(XML_GDTF_MeasurementInterpolationTo);
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
 //------------------------------------------------------------------------------------
 // GdtfConnector
 GdtfConnector::GdtfConnector()
diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index a7356b7..9bb009c 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -630,6 +630,7 @@ namespace SceneData
         virtual	TXString						GetNodeName();
         virtual	void							OnPrintToFile(IXMLFileNodePtr pNode);
         virtual	void							OnReadFromNode(const IXMLFileNodePtr& pNode);        
+        virtual	void							OnErrorCheck(const IXMLFileNodePtr& pNode);
     };
 
 	class GdtfWheel : public GdtfObject
@@ -2303,6 +2304,7 @@ namespace SceneData
         virtual	TXString						GetNodeName();
         virtual	void							OnPrintToFile(IXMLFileNodePtr pNode);
         virtual	void							OnReadFromNode(const IXMLFileNodePtr& pNode);
+        virtual	void							OnErrorCheck(const IXMLFileNodePtr& pNode);
     };
     typedef GdtfDMXPersonality*	GdtfDMXPersonalityPtr;
     typedef std::vector<GdtfDMXPersonality*>	TGdtfDMXPersonalityArray;
@@ -2330,6 +2332,7 @@ namespace SceneData
         virtual	TXString						GetNodeName();
         virtual	void							OnPrintToFile(IXMLFileNodePtr pNode);
         virtual	void							OnReadFromNode(const IXMLFileNodePtr& pNode);
+        virtual	void							OnErrorCheck(const IXMLFileNodePtr& pNode);
     };
     typedef GdtfSoftwareVersionID*	GdtfSoftwareVersionIDPtr;
     typedef std::vector<GdtfSoftwareVersionID*>	TGdtfSoftwareVersionIDArray;
@@ -2581,6 +2584,7 @@ namespace SceneData
         virtual	TXString						GetNodeName();
         virtual	void							OnPrintToFile(IXMLFileNodePtr pNode);
         virtual	void							OnReadFromNode(const IXMLFileNodePtr& pNode);
+        virtual	void							OnErrorCheck(const IXMLFileNodePtr& pNode);
     };
     typedef GdtfMeasurement*	GdtfMeasurementPtr;
         
-- 
2.43.0


From db3ac03f48c7b003ded8b4fce265fb9595936ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 14/92] fix: report an unresolved mode master at the channel
 function that names it

---
 src/GDTFManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 4e7b768..6ab4074 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8926,7 +8926,7 @@ void GdtfFixture::ResolveDMXModeMasters()
 						else
 						{
 							IXMLFileNodePtr node;
-							channel->GetNode(node);
+							function->GetNode(node);
 							GdtfParsingError error (GdtfDefines::EGdtfParsingError::eDMXModeMastersUnresolved, node);
 							SceneData::GdtfFixture::AddError(error);
 						}
-- 
2.43.0


From c58256da8d101c08297d37e7bc3961631dceb6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 15/92] fix: keep every file of a fixture's archive when it is
 written again

---
 src/GDTFManager.cpp | 35 ++++++++---------------------------
 src/GDTFManager.h   |  1 +
 2 files changed, 9 insertions(+), 27 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 6ab4074..0b0fd55 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -7933,6 +7933,7 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size); //data is deleted in the GdtfFixture destructor.
 				std::pair<char*, size_t> bufferPair = std::make_pair((char*)data, size);
 				fFileBuffers[fileNameWithoutFolder] = bufferPair;
+				fArchiveFiles.push_back(std::make_pair(TXString(fileName), bufferPair));
 
 				//-----------------------------------------------------------------------------
 				IFolderIdentifierPtr targetFolder (IID_FolderIdentifier);
@@ -9434,7 +9435,7 @@ GdtfFixture::~GdtfFixture()
 	}
 
 	//Delete buffers
-	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
+	for (auto it = fArchiveFiles.begin(); it != fArchiveFiles.end(); it++)
 	{
 		free(it->second.first);
 	}
@@ -9933,35 +9934,15 @@ bool GdtfFixture::ExportToFile(IZIPFilePtr& zipfile)
 	SceneDataZip::AddFileToZip(zipfile, zipXmlBuffer, TXString(XML_GDTF_GDTFFILENAME) );
 
 	//------------------------------------------------------------------------------------
-	// Add meshes
+	// Add the files that were read with the fixture under the path they had
 
-	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
+	for (auto it = fArchiveFiles.begin(); it != fArchiveFiles.end(); it++)
 	{
-		TXString strFileName;
+		CZIPFileIOBufferImpl* bufferzip = new CZIPFileIOBufferImpl();
+		bufferzip->SetData((void*)it->second.first, it->second.second);
+		zipfile->AddFile(it->first, bufferzip);
 
-		if(it->first.EndsWith("3ds"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::Model3DS) + it->first;
-		}
-
-		if(it->first.EndsWith("svg"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::ModelSVG) + it->first;
-		}
-
-		if(it->first.EndsWith("glb"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::ModelGLTF) + it->first;
-		}
-
-		if(!strFileName.IsEmpty())
-		{
-			CZIPFileIOBufferImpl* bufferzip = new CZIPFileIOBufferImpl();
-			bufferzip->SetData((void*)it->second.first, it->second.second);
-			zipfile->AddFile(strFileName, bufferzip);
-
-			delete bufferzip;
-		}
+		delete bufferzip;
 	}
 	
 	return true;
diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index 9bb009c..007d129 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -2853,6 +2853,7 @@ namespace SceneData
 		GdtfAttributePtr 						fNoFeature;
 
 		std::map<TXString, std::pair<char*, size_t> > fFileBuffers;
+		std::vector<std::pair<TXString, std::pair<char*, size_t> > > fArchiveFiles;	// every file of the archive with its path, owns the buffers
 
 		// Used for big files
 		std::unordered_map<TXString, GdtfAttributePtr, TXStringNoCaseHash>        fAttributeIndex;
-- 
2.43.0


From 9ded7c7d8bcafe6145cc456567a61eac384b8e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 16/92] fix: hand out the 3DS and SVG buffers of a model when
 there are any

---
 src/GDTFManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 0b0fd55..688289c 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -1989,7 +1989,7 @@ EGdtfModel_PrimitiveType GdtfModel::GetPrimitiveType() const
 
 void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
 {
-	if(fBuffer3DS)
+	if(!fBuffer3DS)
 	{
 		return;
 	}
@@ -2005,7 +2005,7 @@ void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
 
 void GdtfModel::GetBufferSVG(void** bufferToCopy, size_t& length)
 {
-	if(fBufferSVG)
+	if(!fBufferSVG)
 	{
 		return;
 	}
-- 
2.43.0


From 658ffbe717f19cc2912a21445077b56fe2759437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:37 +0000
Subject: [PATCH 17/92] fix: give a model the buffer of its own file, not of a
 namesake in another folder

---
 src/GDTFManager.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 688289c..d747303 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -1635,9 +1635,15 @@ void GdtfModel::OnReadFromNode(const IXMLFileNodePtr& pNode)
 		TXString filenameSVG = fGeometryFile + ".svg";
 		TXString filenameGLTF = fGeometryFile + ".glb";
 
+		// There may be files of that name in other folders, the low and high resolution ones for example
+		TXString path3DS = SceneDataZip::GetResourceSubFolder(ERessourceType::Model3DS) + filename3DS;
+		TXString pathSVG = SceneDataZip::GetResourceSubFolder(ERessourceType::ModelSVG) + filenameSVG;
+		TXString pathGLTF = SceneDataZip::GetResourceSubFolder(ERessourceType::ModelGLTF) + filenameGLTF;
+
 		std::map<TXString, std::pair<char*, size_t> > fileBuffers = fParentFixture->GetFileBuffers();
 
-		auto buffer = fileBuffers.find(filename3DS);
+		auto buffer = fileBuffers.find(path3DS);
+		if(buffer == fileBuffers.end()) { buffer = fileBuffers.find(filename3DS); }
 		if(buffer != fileBuffers.end())
 		{
 			fBufferSize3DS	= buffer->second.second;
@@ -1650,7 +1656,8 @@ void GdtfModel::OnReadFromNode(const IXMLFileNodePtr& pNode)
 			fileBuffers[filename3DS] = bufferPair;
 		}
 
-		buffer = fileBuffers.find(filenameSVG);
+		buffer = fileBuffers.find(pathSVG);
+		if(buffer == fileBuffers.end()) { buffer = fileBuffers.find(filenameSVG); }
 		if(buffer != fileBuffers.end())
 		{
 			fBufferSizeSVG	= buffer->second.second;
@@ -1663,7 +1670,8 @@ void GdtfModel::OnReadFromNode(const IXMLFileNodePtr& pNode)
 			fileBuffers[filenameSVG] = bufferPair;
 		}
 
-		buffer = fileBuffers.find(filenameGLTF);
+		buffer = fileBuffers.find(pathGLTF);
+		if(buffer == fileBuffers.end()) { buffer = fileBuffers.find(filenameGLTF); }
 		if(buffer != fileBuffers.end())
 		{
 			fBufferSizeGLTF	= buffer->second.second;
@@ -7933,6 +7941,7 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size); //data is deleted in the GdtfFixture destructor.
 				std::pair<char*, size_t> bufferPair = std::make_pair((char*)data, size);
 				fFileBuffers[fileNameWithoutFolder] = bufferPair;
+				fFileBuffers[TXString(fileName)] = bufferPair;
 				fArchiveFiles.push_back(std::make_pair(TXString(fileName), bufferPair));
 
 				//-----------------------------------------------------------------------------
-- 
2.43.0


From 7ad9a2585b6760219949db5afcb2610182489c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 18/92] fix: keep the files added to a new fixture when its
 buffer is refreshed

---
 src/Implementation/CGdtfFixture.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index 30bb1cb..2ea3ca4 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -155,7 +155,22 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::AddFileToGdtfFile(Mv
     // Append the SubFoldername for resources.
     strFileName = SceneData::SceneDataZip::GetResourceSubFolder(resType) + strFileName;
 
-	fZipFile->AddFile(strFileName, file);	
+	// Remember the content, RefreshBuffer writes the archive again
+	IRawOSFilePtr rawFile (IID_RawOSFile);
+	if (VCOM_FAILED(rawFile->Open(file, true, false, false, false))) { return kVCOMError_Failed; }
+
+	Uint64 size = 0;
+	rawFile->GetFileSize(size);
+	std::vector<char> data ((size_t)size + 1);
+	VCOMError err = size > 0 ? rawFile->Read(0, size, data.data()) : kVCOMError_NoError;
+	rawFile->Close();
+	if (VCOM_FAILED(err)) { return kVCOMError_Failed; }
+
+	CZIPFileIOBufferImpl* buffer = new CZIPFileIOBufferImpl();
+	buffer->SetData(data.data(), (size_t)size);
+	fBuffersAdded.push_back({strFileName, buffer});
+
+	fZipFile->AddFile(strFileName, buffer);	
 	
 	// Read From File
 	return kVCOMError_NoError;
-- 
2.43.0


From ce4ad5afa94654f0d1586cc3ad5b1a98d156af9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 19/92] fix: mark the names of archive entries as UTF-8

---
 src/Wrapper/ZIPFileImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 3c3944e..4aa69c1 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -547,7 +547,7 @@ VCOMError CZIPFileImpl::AddFile(const TXString& inPath, IZIPFileIOBuffer* inputB
 			zipFileInfo.dwCompressedSize = (Uint32)compressedSize; 
 			zipFileInfo.dwUncompressedSize = (Uint32)uncompressedSize; 
 			zipFileInfo.dwCompressionMethod = compressionMethod;
-			zipFileInfo.dwFlags = 0;
+			zipFileInfo.dwFlags = 0x0800; // names are UTF-8
 			zipFileInfo.dwExternalAttrib = 0;
 			zipFileInfo.dwInternalAttrib = 0;
 			zipFileInfo.dwOffsetOfLocalHeader = (Uint32)centralDirPosition;
@@ -626,7 +626,7 @@ VCOMError CZIPFileImpl::AddFile(const TXString& inPath, IZIPFileIOBuffer* inputB
 			zipFileInfo.dwCompressionMethod = compressionMethod;
 			zipFileInfo.dwDosTime = 0;
 			zipFileInfo.dwDosDate = 0;
-			zipFileInfo.dwFlags = 0;
+			zipFileInfo.dwFlags = 0x0800; // names are UTF-8
 			zipFileInfo.dwExternalAttrib = 0;
 			zipFileInfo.dwInternalAttrib = 0;
 			zipFileInfo.dwOffsetOfLocalHeader = 0;
-- 
2.43.0


From 8ee44c56f9c0d17b9c5154d6a8a4741cd2be7de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 20/92] fix: write the classes of a scene to the MVR file

---
 src/SceneDataExchange.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index b231634..b2edb84 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3656,6 +3656,11 @@ bool SceneDataExchange::WriteXml(const IFolderIdentifierPtr& folder, IXMLFileIOB
 						mappingDef->PrintToFile(pAuxDataNode, this);
 					}
 
+					for ( const auto& classObj : fClasses )
+					{
+						classObj->PrintToFile( pAuxDataNode, this );
+					}
+
 					for ( const auto& position : fPositions )
 					{
 						position->PrintToFile( pAuxDataNode, this );
-- 
2.43.0


From 50c915013bbc93edc1af064e4c0a7474c9fa23e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 21/92] fix: groups keep the transform matrix they are created
 with

---
 src/SceneDataExchange.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index b2edb84..a8ebdaf 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3187,6 +3187,7 @@ SceneDataGroupObjPtr SceneDataExchange::CreateGroupObject(const SceneDataGUID& g
 {
 	SceneDataGroupObjPtr newGroup = new SceneDataGroupObj(guid);
 	addToContainer->AddObject(newGroup);
+	newGroup->SetTransformMatrix(offset);
 	return newGroup;
 }
 
@@ -3195,6 +3196,7 @@ SceneDataGroupObjPtr SceneDataExchange::CreateGroupObject(const SceneDataGUID& g
 	SceneDataGroupObjPtr newGroup = new SceneDataGroupObj(guid);
 	addToContainer->AddObject(newGroup);
 	newGroup->setName(name);
+	newGroup->SetTransformMatrix(offset);
 	return newGroup;
 }
 
-- 
2.43.0


From a3b3fb967d3e19c2958320e799bff408e4bfdc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 22/92] fix: links to focus points, positions and classes are
 compared as UUIDs, not as text

---
 src/SceneDataExchange.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index a8ebdaf..4d6dc6c 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3943,7 +3943,7 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			bool match  = false;
 			for (SceneDataFocusPointObjPtr focusPoint : fFocusPoints)
 			{
-				if (focusUuid == focusPoint->getGuid().GetUUIDString())
+				if (SceneDataGUID(focusUuid) == focusPoint->getGuid())
 				{
 					fixture->SetFocusPoint(focusPoint);
 					match = true;
@@ -3959,7 +3959,7 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			bool match  = false;
 			for (SceneDataPositionObjPtr position : fPositions)
 			{
-				if (postionUuid == position->getGuid().GetUUIDString())
+				if (SceneDataGUID(postionUuid) == position->getGuid())
 				{
 					fixture->SetPosition(position);
 					match = true;
@@ -3982,7 +3982,7 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			bool match  = false;
 			for (SceneDataClassObjPtr classObj : fClasses)
 			{
-				if (classUuid.Equal( classObj->getGuid().GetUUIDString() ))
+				if (SceneDataGUID(classUuid) == classObj->getGuid())
 				{
 					scObj->SetClass(classObj);
 					match = true;
-- 
2.43.0


From c12021adaf5d6caf73abe7441d151775d6656392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 23/92] fix: resolve symbol references of every object and
 survive references to missing symbol definitions

---
 src/SceneDataExchange.cpp | 65 +++++++++++++++++++--------------------
 src/SceneDataExchange.h   |  2 ++
 2 files changed, 33 insertions(+), 34 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 4d6dc6c..f4e84f2 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -2999,7 +2999,7 @@ SceneDataSymDefObjPtr SceneDataExchange::ReadSymDefObject(const IXMLFileNodePtr&
 	newSymDef->ReadFromNode(node, this);
 	
 	fSymDefObjs.push_back( newSymDef );
-	fSymDefMap[uuid] = newSymDef;
+	fSymDefMap[newSymDef->getGuid().GetUUIDString()] = newSymDef;
 
 	return newSymDef;
 }
@@ -3994,43 +3994,40 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			if (!match) { DSTOP((kEveryone, "Could not resolve UUID from Class to Object")); }
 			
 		}
+	}
 
-        //-----------------------------------------------------------------------------
-        // Resolve Symbols in Symbols
-        TSymDefMap::iterator it = fSymDefMap.begin();
-        while(it != fSymDefMap.end())
-        {
-            SceneDataSymDefObjPtr symDef = it->second;
-
-            for (SceneDataGeoInstanceObjPtr geoObj : symDef->getGeometryArray()) 
-            {
-                if (geoObj->IsSymDef())
-                {
-				    SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
-				    SceneDataSymDefObjPtr ptr    = fSymDefMap[symObj->GetUnresolvedSymDef()];
-				
-				    ASSERTN(kEveryone, ptr);
-				    if(ptr) { symObj->SetSymDef(ptr); }
-                }
-            }
+	//------------------------------------------------------------------------------------------------------------------------------------------------------------------------
+	// Resolve symbols in symbol definitions
+	for (const auto& symDef : fSymDefMap) { ResolveSymbols(symDef.second->getGeometryArray()); }
 
-            it++;
-        }
+	// Resolve symbols in the object tree
+	for (SceneDataObjWithMatrixPtr layer : fChildObjs) { ResolveSymbolsInTree(layer); }
+}
 
-		for(SceneDataGeoInstanceObjPtr geoObj : scObj->GetGeometryArr())
-		{
-			if(geoObj->IsSymDef())
-			{
-				SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
-				SceneDataSymDefObjPtr ptr    = fSymDefMap[symObj->GetUnresolvedSymDef()];
-				
-				ASSERTN(kEveryone, ptr);
-				if(ptr) { symObj->SetSymDef(ptr); }
-			}
-		}
-		
+void SceneDataExchange::ResolveSymbols(const SceneDataGeometryObjArray& geometries)
+{
+	for (SceneDataGeoInstanceObjPtr geoObj : geometries)
+	{
+		if (!geoObj->IsSymDef()) { continue; }
+
+		SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
+		if (symObj->GetUnresolvedSymDef().IsEmpty()) { continue; }
+
+		TSymDefMap::const_iterator it = fSymDefMap.find(SceneDataGUID(symObj->GetUnresolvedSymDef()).GetUUIDString());
+		ASSERTN(kEveryone, it != fSymDefMap.end());
+		if (it != fSymDefMap.end()) { symObj->SetSymDef(it->second); }
+	}
+}
+
+void SceneDataExchange::ResolveSymbolsInTree(SceneDataObjWithMatrixPtr obj)
+{
+	ResolveSymbols(obj->GetGeometryArr());
+
+	SceneDataGroupObjPtr group = dynamic_cast<SceneDataGroupObjPtr>(obj);
+	if (group)
+	{
+		for (SceneDataObjWithMatrixPtr child : group->GetChildArray()) { ResolveSymbolsInTree(child); }
 	}
-	
 }
 
 void SceneDataExchange::ProcessLayer(const IXMLFileNodePtr& node)
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index cfee0ed..76f69c6 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -1123,6 +1123,8 @@ namespace SceneData
 		void								ProcessLayer(const IXMLFileNodePtr& node);
 		void								ReadChildObjs(const IXMLFileNodePtr & node, SceneDataGroupObjPtr addToContainer);
 		SceneDataGroupObjPtr				ProcessGroup(const IXMLFileNodePtr& node, SceneDataGroupObjPtr addToContainer);
+		void								ResolveSymbols(const SceneDataGeometryObjArray& geometries);
+		void								ResolveSymbolsInTree(SceneDataObjWithMatrixPtr obj);
 		bool								CheckAbort();
 		
 		
-- 
2.43.0


From 815ac3ed161aeb29900fce37859193e13315e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 24/92] fix: a multipatch parent may come after its children in
 the file

---
 src/SceneDataExchange.cpp | 25 ++++++++++++++++---------
 src/SceneDataExchange.h   |  2 ++
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index f4e84f2..b1a2b8b 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -246,6 +246,11 @@ SceneDataObj* SceneDataObj::getMultipatchParent() const
 	return fMultipatchObj;
 }
 
+const TXString& SceneDataObj::getUnresolvedMultipatch() const
+{
+	return fUnresolvedMultipatch;
+}
+
 void SceneDataObj::PrintToFile(IXMLFileNodePtr pContainerNode, SceneDataExchange* exchange)
 {
     // Create the new node
@@ -304,15 +309,7 @@ void SceneDataObj::OnReadFromNode(const IXMLFileNodePtr& pNode, SceneDataExchang
 	pNode->GetNodeAttributeValue(XML_Val_NameAttrName, name);
 	this->setName(name);
 
-	TXString multipatch;
-	pNode->GetNodeAttributeValue( XML_Val_MultipatchAttrName, multipatch );
-
-	if ( !multipatch.IsEmpty() )
-	{	
-		SceneDataGUID uuid( multipatch );
-		const auto& multipatchObj = exchange->GetSceneObjByUUID(uuid);
-		this->setMultipatchParent(multipatchObj);
-	}
+	pNode->GetNodeAttributeValue( XML_Val_MultipatchAttrName, fUnresolvedMultipatch );
 }
 
 // ----------------------------------------------------------------------------------------------------------------------------------
@@ -3996,6 +3993,16 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 		}
 	}
 
+	//------------------------------------------------------------------------------------------------------------------------------------------------------------------------
+	// Resolve multipatch parents
+	for (SceneDataObjWithMatrixPtr scObj : fSceneObjects)
+	{
+		if (scObj->getUnresolvedMultipatch().IsEmpty() == false)
+		{
+			scObj->setMultipatchParent(GetSceneObjByUUID(SceneDataGUID(scObj->getUnresolvedMultipatch())));
+		}
+	}
+
 	//------------------------------------------------------------------------------------------------------------------------------------------------------------------------
 	// Resolve symbols in symbol definitions
 	for (const auto& symDef : fSymDefMap) { ResolveSymbols(symDef.second->getGeometryArray()); }
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index 76f69c6..c46d11a 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -111,6 +111,7 @@ namespace SceneData
 		SceneDataGUID					fGuid;
 		TXString						fName;
 		SceneDataObj*					fMultipatchObj = nullptr;
+		TXString						fUnresolvedMultipatch;
     
 	public:   
 		SceneDataGUID&					getGuid();
@@ -119,6 +120,7 @@ namespace SceneData
     
 		void							setMultipatchParent( SceneDataObj* value );
 		SceneDataObj*				    getMultipatchParent() const;
+		const TXString&					getUnresolvedMultipatch() const;
     
 		// Write    
 		virtual void					PrintToFile(IXMLFileNodePtr pContainerNode, SceneDataExchange* exchange);
-- 
2.43.0


From facc3e822cf458c4a126eef2a353d883b475dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 25/92] fix: GetProtocolAt hands the protocol to the caller

---
 src/Implementation/CSceneObjImpl.cpp | 4 ++--
 src/SceneDataExchange.cpp            | 8 ++++----
 src/SceneDataExchange.h              | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index ad944e8..4c7904f 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1040,7 +1040,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 		return kVCOMError_Failed;
 	}
 
-	SceneData::SceneDataProtocols protocol = fixture->GetProtocolsArray().at( at );
+	const SceneData::SceneDataProtocols& protocol = fixture->GetProtocolsArray().at( at );
 	SProtocol* pProtocol = new SProtocol;
 	pProtocol->fGeometry = protocol.GetGeometry().GetCharPtr();
 	pProtocol->fName = protocol.GetName().GetCharPtr();
@@ -1048,7 +1048,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 	pProtocol->fVersion = protocol.GetVersion().GetCharPtr();
 	pProtocol->fType = protocol.GetType().GetCharPtr();
 
-	outProtocol = &pProtocol;
+	*outProtocol = pProtocol;
 
 	return kVCOMError_NoError;
 }
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index b1a2b8b..31c1a6a 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -1859,22 +1859,22 @@ SceneDataProtocols::SceneDataProtocols( const TXString& geometry, const TXString
 	fTransmision	= transmision;
 }
 
-TXString SceneDataProtocols::GetGeometry() const
+const TXString& SceneDataProtocols::GetGeometry() const
 {
 	return fGeometry;
 }
 
-TXString SceneDataProtocols::GetName() const
+const TXString& SceneDataProtocols::GetName() const
 {
 	return fName;
 }
 
-TXString SceneDataProtocols::GetType() const
+const TXString& SceneDataProtocols::GetType() const
 {
 	return fType;
 }
 
-TXString SceneDataProtocols::GetVersion() const
+const TXString& SceneDataProtocols::GetVersion() const
 {
 	return fVersion;
 }
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index c46d11a..e3a39f7 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -742,10 +742,10 @@ namespace SceneData
 
 											SceneDataProtocols( const TXString& geometry, const TXString& name, const TXString& type, const TXString& version, const ETransmissionType& transmision );
 
-		TXString							GetGeometry() const;
-		TXString							GetName() const;
-		TXString							GetType() const;
-		TXString							GetVersion() const;
+		const TXString&							GetGeometry() const;
+		const TXString&							GetName() const;
+		const TXString&							GetType() const;
+		const TXString&							GetVersion() const;
 		ETransmissionType					GetTransmission() const;
 	};
 	typedef std::vector<SceneDataProtocols>	SceneDataProtocolsArray;
-- 
2.43.0


From 7f8f8f3a248697b5e243bb71fc7ba59fed1f58df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:01 +0000
Subject: [PATCH 26/92] fix: a geometry reference to a symbol has no geometry
 file

---
 src/Implementation/CGeometryReferenceImpl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Implementation/CGeometryReferenceImpl.cpp b/src/Implementation/CGeometryReferenceImpl.cpp
index 915a49d..a54aaa4 100644
--- a/src/Implementation/CGeometryReferenceImpl.cpp
+++ b/src/Implementation/CGeometryReferenceImpl.cpp
@@ -35,6 +35,9 @@ MvrString VectorworksMVR::CGeometryReferenceImpl::GetFileForGeometry()
 	ASSERTN(kEveryone,fPtr);
 	if( ! fPtr ) return nullptr;
 	
+	// A symbol has no file
+	if (fIsSymbol) { return ""; }
+	
 	// Do the actual cast
 	SceneData::SceneDataGeometryObjPtr geoObj = static_cast<SceneData::SceneDataGeometryObjPtr>(fPtr);
 	
-- 
2.43.0


From 18e91f69b7c16b902a0d884a4206dcc745666740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:01 +0000
Subject: [PATCH 27/92] fix: write mapping definitions without a source

---
 src/SceneDataExchange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 31c1a6a..c5ad9a0 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -808,7 +808,7 @@ void SceneDataMappingDefinitionObj::OnPrintToFile(IXMLFileNodePtr pNode, SceneDa
 		pSizeYNode->SetNodeValue(GdtfConverter::ConvertInteger(fSizeY));
 	}
 
-	fSource->PrintToFile(pNode, exchange);
+	if (fSource) { fSource->PrintToFile(pNode, exchange); }
 
 	IXMLFileNodePtr pScaleHandlingNode;
 	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_Val_MappingDefinitionScaleHandling, &pScaleHandlingNode)))
-- 
2.43.0


From 04b6d2f4e5f48d6333393e66f5e0a480cf9b8997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:15 +0000
Subject: [PATCH 28/92] fix: malformed UUIDs are reported instead of throwing
 or dereferencing a missing node

---
 src/GdtfError.cpp     |  4 ++++
 src/UUID.cpp          | 18 ++++++++++++++++++
 src/XmlFileHelper.cpp | 31 ++++++++++++++++---------------
 3 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/GdtfError.cpp b/src/GdtfError.cpp
index ba2191b..f357563 100644
--- a/src/GdtfError.cpp
+++ b/src/GdtfError.cpp
@@ -27,6 +27,10 @@ GdtfParsingError::GdtfParsingError(GdtfDefines::EGdtfParsingError type, size_t l
 GdtfParsingError::GdtfParsingError(GdtfDefines::EGdtfParsingError type, const IXMLFileNodePtr& pNode)
 {
     fErrorType          = type;
+
+    // There is no position to report without a node
+    if (!pNode) { return; }
+
     pNode->GetLineNumber(fLineNumber, fColumn);
     pNode->GetNodeName(fNodeName);
 
diff --git a/src/UUID.cpp b/src/UUID.cpp
index 148d172..0f32e18 100644
--- a/src/UUID.cpp
+++ b/src/UUID.cpp
@@ -136,6 +136,11 @@ static TXString	GetPieceAsText(Uint8 piece)
 	return str;
 }
 
+static bool IsHexDigit(char ch)
+{
+	return (ch >= '0' && ch <= '9') || (ch >= 'A' && ch <= 'F') || (ch >= 'a' && ch <= 'f');
+}
+
 static Uint8 GetDigitForChar(char ch)
 {
 	if ( ch >= '0' && ch <= '9' )
@@ -222,6 +227,19 @@ bool VWFC::Tools::VWUUID::FromString(const TXString& str, bool includeBrackets)
 		}
 	}
 
+	if ( b )
+	{
+		const char* pString		= (const char*) str;
+
+		// Everything between the separators needs to be a hex digit
+		const size_t first	= includeBrackets ? 1 : 0;
+		for(size_t i=0; i<36 && b; i++)
+		{
+			const bool isSeparator = i == 8 || i == 13 || i == 18 || i == 23;
+			b = isSeparator || ::IsHexDigit( pString[first + i] );
+		}
+	}
+
 	if ( b )
 	{
 		const char* pString		= (const char*) str;
diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 8faca3a..194347b 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -37,12 +37,12 @@ using namespace SceneData;
 {
 	// First check if theinValuelength is as aspected
     TXString uuidForRead;
-	if (inValue.GetLength() == 47)	
-    {
-        // Remove white space
-        TXString value = inValue;
-	    value.Replace(" ", "");
+	// Remove white space
+	TXString value = inValue;
+	value.Replace(" ", "");
 	
+	if (inValue.GetLength() == 47 && value.GetLength() == 32)	
+    {
         uuidForRead.SetLength(38);
         uuidForRead[0] = '{';
         uuidForRead[1] = value[0];
@@ -94,14 +94,15 @@ using namespace SceneData;
     {
         return false;
     }
-    else
-    {
+    
+	if (!uuid.FromString(uuidForRead))
+	{
         DSTOP((kEveryone, "Invalid UUID Format"));
         GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_UuidHasWrongFormat, node);
         SceneData::GdtfFixture::AddError(error); 
-    }
-    
-	uuid = VWUUID(uuidForRead);
+        
+        uuid = VWUUID();
+	}
 	
 	return true;
 	
@@ -113,12 +114,12 @@ using namespace SceneData;
 	VWFC::Tools::VWUUID uuid;
 	// First check if theinValuelength is as aspected
     TXString uuidForRead;
-	if (inValue.GetLength() == 47)	
-    {
-        // Remove white space
-        TXString value = inValue;
-	    value.Replace(" ", "");
+	// Remove white space
+	TXString value = inValue;
+	value.Replace(" ", "");
 	
+	if (inValue.GetLength() == 47 && value.GetLength() == 32)	
+    {
         uuidForRead.SetLength(38);
         uuidForRead[0] = '{';
         uuidForRead[1] = value[0];
-- 
2.43.0


From 86a478b495fd352ccc04aad1d737da257083c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 29/92] fix: custom commands keep channel function names that
 contain a comma

---
 src/SceneDataExchange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index c5ad9a0..138a073 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -1212,7 +1212,7 @@ void SceneDataCustomCommand::OnReadFromNode(const IXMLFileNodePtr& pNode, SceneD
 	}
 	else
 	{
-		ptrdiff_t commaP = customCommandString.Find(",");
+		ptrdiff_t commaP = customCommandString.ReverseFind(",");
 		fChannelFunction = customCommandString.Left(commaP);
 	}
 
-- 
2.43.0


From de67da34e7cdc13d29d4f50aa9287786fb7483c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 30/92] fix: reads of an archive stay within its data

---
 src/Wrapper/ZIPFileBuffer.cpp |  9 ++++--
 src/Wrapper/ZIPFileImpl.cpp   | 52 ++++++++++++++++++-----------------
 src/Wrapper/ZIPFileImpl.h     |  2 +-
 3 files changed, 35 insertions(+), 28 deletions(-)

diff --git a/src/Wrapper/ZIPFileBuffer.cpp b/src/Wrapper/ZIPFileBuffer.cpp
index baaa00f..dadf429 100644
--- a/src/Wrapper/ZIPFileBuffer.cpp
+++ b/src/Wrapper/ZIPFileBuffer.cpp
@@ -94,8 +94,13 @@ VCOMError ZIPFileBuffer::GetFileSize(Uint64& outValue)
 
 VCOMError ZIPFileBuffer::Read(Uint64 position, Uint64& inoutSize, void* pOutBuffer)
 {
-	memcpy(pOutBuffer, fpZIPFileBuffer + position, (size_t)inoutSize);
-	return kVCOMError_NoError;
+	// only what is there can be read, inoutSize tells how much that is
+	const Uint64 available = (position < fZIPFileBufferSize) ? (Uint64)fZIPFileBufferSize - position : 0;
+	const bool   complete  = inoutSize <= available;
+	if (!complete)		{ inoutSize = available; }
+	if (inoutSize > 0)	{ memcpy(pOutBuffer, fpZIPFileBuffer + position, (size_t)inoutSize); }
+
+	return complete ? kVCOMError_NoError : kVCOMError_Failed;
 }
 
 VCOMError ZIPFileBuffer::Write(Uint64 position, Uint64 size, const void* pBuffer)
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 4aa69c1..c827a01 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -262,6 +262,9 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 	if ( path != "" )
 	{
 		this->GetFileCentralHeaderPosition( path, currentReadPosition );
+		if ( !currentReadPosition )
+			return kVCOMError_Failed;
+
 		currentReadPosition += ( 6 * kShortLength ) + ( 4 * kLongLength );
 
 		Uint16 fileNameLength = 0;
@@ -288,7 +291,7 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 		Uint64 inOutReadSize = (Uint64)fileNameLength;
 		this->ReadFromFile( currentReadPosition, inOutReadSize, (void*) fReadFileName );
 
-		if ( ( (size_t)inOutReadSize == fileNameLength ) &&  0 != strcmp(fReadFileName, ""))
+		if ( ( (size_t)inOutReadSize == fileNameLength ) && fileNameLength > 0 && fReadFileName[0] != 0 )
 		{
 			outPath  = std::string( fReadFileName, fileNameLength );
 		}
@@ -373,8 +376,8 @@ VCOMError CZIPFileImpl::GetFileInfo(const std::string& path, SZIPFileInfo& outIn
 		this->ReadLong( outInfo.dwExternalAttrib, currentReadPosition );
 		this->ReadLong( outInfo.dwOffsetOfLocalHeader, currentReadPosition ); 
 
-		char* fileName = new char[fileNameLength];
-		char* fileComment = new char[fileCommentLength];
+		char* fileName = new char[fileNameLength]();
+		char* fileComment = new char[fileCommentLength]();
 
 		Uint64 inOutReadSize = (Uint64)fileNameLength;
 		this->ReadFromFile( currentReadPosition, inOutReadSize, (void*)fileName );
@@ -414,7 +417,9 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 		return kVCOMError_NotInitialized;
 	
 	SZIPFileInfo fileInfo;
-	this->GetFileInfo( path, fileInfo );
+	err = this->GetFileInfo( path, fileInfo );
+	if ( VCOM_FAILED( err ) )
+		return err;
 	
 	Uint32 currentReadPosition = fileInfo.dwOffsetOfLocalHeader;
 	currentReadPosition += ( 5 * kShortLength ) + ( 4 * kLongLength ); // start of variable data
@@ -427,6 +432,12 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 
 	currentReadPosition += fileNameLength + extraFieldLength;
 
+	// the data has to be in the archive
+	Uint64 archiveSize = 0;
+	this->GetSize( archiveSize );
+	if ( (Uint64)currentReadPosition + fileInfo.dwCompressedSize > archiveSize )
+		return kVCOMError_Failed;
+
 	// read the raw data
 	char* readData = new char[ fileInfo.dwCompressedSize ]; 
 	Uint64 inOutReadSize = (Uint64)fileInfo.dwCompressedSize;
@@ -1005,18 +1016,14 @@ void CZIPFileImpl::ReadLong( Uint32& outRead, Uint32& currentReadPosition )
 {
 	if ( fpOpenedFile )
 	{
-		Uint64 length = 0;
-		this->fpOpenedFile->GetFileSize(length);
-
-		if(currentReadPosition >= length)
+		Uint64 size = sizeof(Uint32);
+		if ( VCOM_SUCCEEDED( fpOpenedFile->Read( currentReadPosition, size, (void*)&outRead ) ) )
 		{
-			outRead = 0;
+			currentReadPosition +=sizeof(Uint32);
 		}
 		else
 		{
-			Uint64 size = sizeof(Uint32);
-			fpOpenedFile->Read( currentReadPosition, size, (void*)&outRead );
-			currentReadPosition +=sizeof(Uint32);
+			outRead = 0;
 		}
 	}
 }
@@ -1025,18 +1032,14 @@ void CZIPFileImpl::ReadShort( Uint16& outRead, Uint32& currentReadPosition )
 {
 	if ( fpOpenedFile )
 	{
-		Uint64 length = 0;
-		this->fpOpenedFile->GetFileSize(length);
-
-		if(currentReadPosition >= length)
+		Uint64 size = sizeof(Uint16);
+		if ( VCOM_SUCCEEDED( fpOpenedFile->Read( currentReadPosition, size, (void*)&outRead ) ) )
 		{
-			outRead = 0;
+			currentReadPosition +=sizeof(Uint16);
 		}
 		else
 		{
-			Uint64 size = sizeof(Uint16);
-			fpOpenedFile->Read( currentReadPosition, size, (void*)&outRead );
-			currentReadPosition +=sizeof(Uint16);
+			outRead = 0;
 		}
 	}
 }
@@ -1203,7 +1206,7 @@ void CZIPFileImpl::GetFileLocalHeaderPosition( const std::string& path, Uint32&
 		Uint32 signature;
 		this->ReadLong( signature, currentReadPosition );
 		if ( signature != kCentralDirSignature )
-			bError = true;
+			return;
 
 		currentReadPosition += ( 6 * kShortLength ) + (3 * kLongLength); // start of variable length data ( file name, extra field and comment lengths )
 
@@ -1249,14 +1252,13 @@ void CZIPFileImpl::GetFileCentralHeaderPosition( const std::string& path, Uint32
 		return;
 
 	bool bFound = false;
-	bool bError = false;
-	while ( !bFound && !bError )
+	while ( !bFound )
 	{
 		Uint32 startOffset = (Uint32)currentReadPosition;
 		Uint32 signature;
 		this->ReadLong( signature, currentReadPosition );
 		if ( signature != kCentralDirSignature )
-			bError = true;
+			return;
 
 		currentReadPosition += ( 6 * kShortLength ) + ( 3 * kLongLength ); // start of variable length data ( file name, extra field and comment lengths )
 		Uint16 fileNameLength		= 0;
@@ -1277,7 +1279,7 @@ void CZIPFileImpl::GetFileCentralHeaderPosition( const std::string& path, Uint32
 		
 		if ( inOutReadSize != fileNameLength )
 		{
-			bError = true;
+			return;
 		}
 
 		if (((size_t)path.size() == fileNameLength ) &&  0 == memcmp(fReadFileName, path.c_str(), fileNameLength))
diff --git a/src/Wrapper/ZIPFileImpl.h b/src/Wrapper/ZIPFileImpl.h
index 2fbdadb..e5f0e4b 100644
--- a/src/Wrapper/ZIPFileImpl.h
+++ b/src/Wrapper/ZIPFileImpl.h
@@ -131,7 +131,7 @@ namespace VectorworksMVR
 
 			TXString						fOpenedFileFullPath;
 			TXString						fFolderPath;
-			char							fReadFileName[1024];
+			char							fReadFileName[0xFFFF + 1];	// the longest name there can be
 		private:
 			static VCOMError				fLastError;
 
-- 
2.43.0


From 870928a58701778029eb13b6e8fa2686470187d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 31/92] fix: storing an empty file in an archive is no error

---
 src/Wrapper/ZIPFileImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index c827a01..ac3f5bf 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -549,7 +549,7 @@ VCOMError CZIPFileImpl::AddFile(const TXString& inPath, IZIPFileIOBuffer* inputB
 				memcpy( (void*)outData, (void*)deflateBuffer, compressedSize );
 			}
 
-			if ( !compressedSize )
+			if ( !compressedSize && uncompressedSize )
 				err = kVCOMError_Failed;
 
 			zipFileInfo.bFolder = (uncompressedSize)?false:true;
@@ -626,7 +626,7 @@ VCOMError CZIPFileImpl::AddFile(const TXString& inPath, IZIPFileIOBuffer* inputB
 				memcpy( (void*)outData, (void*)deflateBuffer, compressedSize );
 			}
 
-			if ( !compressedSize )
+			if ( !compressedSize && uncompressedSize )
 				err = kVCOMError_Failed;
 		
 			zipFileInfo.bFolder = (uncompressedSize)?false:true;
-- 
2.43.0


From faf251bccb4d1c740557ab392b44103eb2f6d67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 32/92] fix: listing an archive that holds a name twice comes
 to an end

---
 src/Wrapper/ZIPFileImpl.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index ac3f5bf..cfc6a37 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -252,6 +252,7 @@ VCOMError CZIPFileImpl::GetSize(Uint64& outValue)
 VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPath)
 {
 	VCOMError err = kVCOMError_NoError;
+	bool bFound = false;
 	// first find the refernced file
 
 	Uint32 currentReadPosition;
@@ -277,23 +278,39 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 		currentReadPosition += ( 2 * kShortLength ) + ( 2 * kLongLength ) + fileNameLength + extraFieldLength + fileCommentLength;
 	}
 
-	Uint32 signature;
-	this->ReadLong( signature, currentReadPosition );
-	if ( signature != kCentralDirSignature )
-		err =  kVCOMError_False;
-
-	if ( err == kVCOMError_NoError )
+	while ( !bFound && err == kVCOMError_NoError )
 	{
+		const Uint32 headerPosition = currentReadPosition;
+
+		Uint32 signature;
+		this->ReadLong( signature, currentReadPosition );
+		if ( signature != kCentralDirSignature )
+			return kVCOMError_False;
+
 		Uint16 fileNameLength = 0;
+		Uint16 extraFieldLength = 0;
+		Uint16 fileCommentLength = 0;
 		currentReadPosition += ( 6 * kShortLength ) + ( 3 * kLongLength ); // the file name length will be found here
 		this->ReadShort( fileNameLength, currentReadPosition );
-		currentReadPosition += ( 4 * kShortLength ) + ( 2 * kLongLength ); // the file name will be found here
+		this->ReadShort( extraFieldLength, currentReadPosition );
+		this->ReadShort( fileCommentLength, currentReadPosition );
+		currentReadPosition += ( 2 * kShortLength ) + ( 2 * kLongLength ); // the file name will be found here
 		Uint64 inOutReadSize = (Uint64)fileNameLength;
 		this->ReadFromFile( currentReadPosition, inOutReadSize, (void*) fReadFileName );
 
 		if ( ( (size_t)inOutReadSize == fileNameLength ) && fileNameLength > 0 && fReadFileName[0] != 0 )
 		{
-			outPath  = std::string( fReadFileName, fileNameLength );
+			std::string fileName( fReadFileName, fileNameLength );
+
+			// an archive can hold a name more than once, only the first of these entries is accessible
+			Uint32 firstPosition = 0;
+			this->GetFileCentralHeaderPosition( fileName, firstPosition );
+			if ( firstPosition == headerPosition )
+			{
+				outPath = fileName;
+				bFound  = true;
+			}
+			currentReadPosition += extraFieldLength + fileCommentLength;
 		}
 		else 
 		{
-- 
2.43.0


From 2268e520a49ab157abfef11cf902c5296d06284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 33/92] fix: look for the next file of an extension in an
 archive

---
 src/Wrapper/ZIPFileImpl.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index cfc6a37..bc34b0d 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -326,31 +326,27 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, const std::string&
 	VCOMError err = kVCOMError_NoError;
 	bool bFound = false;
 	std::string currentFile = path;
-	while ( bFound )
+	while ( !bFound )
 	{
 		std::string nextFile;
 		err = this->GetNextFile( currentFile, nextFile );
 		if ( err != kVCOMError_NoError )
 			break;
 
-		TXString foundExtension = "";
-		IFileIdentifierPtr pFileID( IID_FileIdentifier );
-		pFileID->Set( outPath );
-		pFileID->GetFileExtension( foundExtension );
+		std::string foundExtension = "";
+		size_t separator = nextFile.find_last_of( "./" );
+		if ( separator != std::string::npos && nextFile[separator] == '.' )
+			foundExtension = nextFile.substr( separator + 1 );
 	
 		if ( extension == foundExtension )
 		{	
-			outPath = currentFile;
+			outPath = nextFile;
 			bFound = true;
 		}
 		currentFile = nextFile;
-		if ( currentFile == "" )
-			break;
 	}
-	if ( !bFound )
-		err = kVCOMError_Failed;
 
-	return kVCOMError_NoError;
+	return err;
 }
 
 VCOMError CZIPFileImpl::GetFileInfo(const std::string& path, SZIPFileInfo& outInfo)
-- 
2.43.0


From 9171ede46f07a59aa8c3ce346545cc9860b637fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 34/92] fix: removing a file from an archive keeps the others

---
 src/Wrapper/ZIPFileBuffer.cpp |  2 ++
 src/Wrapper/ZIPFileImpl.cpp   | 34 +++++++++++-----------------------
 2 files changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/Wrapper/ZIPFileBuffer.cpp b/src/Wrapper/ZIPFileBuffer.cpp
index dadf429..fbf02c6 100644
--- a/src/Wrapper/ZIPFileBuffer.cpp
+++ b/src/Wrapper/ZIPFileBuffer.cpp
@@ -105,6 +105,8 @@ VCOMError ZIPFileBuffer::Read(Uint64 position, Uint64& inoutSize, void* pOutBuff
 
 VCOMError ZIPFileBuffer::Write(Uint64 position, Uint64 size, const void* pBuffer)
 {
+	if (size == 0)	{ return kVCOMError_NoError; }
+
 	// Check how much memory we need
 	size_t needToAllocate = fZIPFileBufferSize + size;
 
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index bc34b0d..8059d53 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -698,10 +698,12 @@ VCOMError CZIPFileImpl::AddFile(const TXString& path, IFileIdentifier* inputFile
 	return err;	
 }
 
-VCOMError CZIPFileImpl::RemoveFile(const TXString& path)
+VCOMError CZIPFileImpl::RemoveFile(const TXString& inPath)
 {
+	TXString path = inPath;
+	path.Replace("\\", "/");
 	VCOMError err = kVCOMError_NoError;
-	if ( !fpOpenedFile )
+	if ( !fpOpenedFile || !fbOpenedWrite )
 		return kVCOMError_NotInitialized;
 
 	Uint32 centralFileHeaderPosition = 0;
@@ -743,41 +745,38 @@ VCOMError CZIPFileImpl::RemoveFile(const TXString& path)
 		TZIPFileInfoArray arrFileInfos;
 		std::string currentFile = "";
 		this->GetNextFile( std::string(""), currentFile );
-		bool bFound = false;
 		for ( Uint16 filesCounter = 0; filesCounter < zipArchiveInfo.dwTotalNumberOfEntries; filesCounter++ )
 		{
 			std::string nextFile;
 			this->GetNextFile( currentFile, nextFile ); 
 			SZIPFileInfo currentFileInfo;
 			this->GetFileInfo( currentFile, currentFileInfo );
-			if ( bFound )
+			if ( currentFileInfo.dwOffsetOfLocalHeader > localFileHeaderPosition )
 			{
 				currentFileInfo.dwOffsetOfLocalHeader -= removedLocalDataSize;
 			}
-			if ( currentFile == path )
-				bFound = true;
-			else
+			if ( currentFile != path.GetStdString() )
 				arrFileInfos.push_back( currentFileInfo );
 
 			if ( nextFile == "" )
 				break;
 			currentFile = nextFile;
 		}
+		Uint32 centralDirPosition = zipArchiveInfo.dwOffsetCentralDir;
 		zipArchiveInfo.dwOffsetCentralDir -= removedLocalDataSize;
 		zipArchiveInfo.dwSizeOfCentralDir -= removedCentralDataSize;
 		zipArchiveInfo.dwNumberOfEntriesOnThisDisk--;
 		zipArchiveInfo.dwTotalNumberOfEntries--;
 	
 		char* readData1 = new char[(size_t)localFileHeaderPosition]; 
-		char* readData2 = new char[(size_t)centralFileHeaderPosition - localFileHeaderPosition - removedLocalDataSize]; 
+		char* readData2 = new char[(size_t)centralDirPosition - localFileHeaderPosition - removedLocalDataSize]; 
 		Uint64 readSize1 = (Uint64)localFileHeaderPosition;
-		Uint64 readSize2 = (Uint64)( centralFileHeaderPosition - localFileHeaderPosition - removedLocalDataSize);
+		Uint64 readSize2 = (Uint64)( centralDirPosition - localFileHeaderPosition - removedLocalDataSize);
 
 		fpOpenedFile->Read( 0, readSize1, (void*)readData1 );
 		fpOpenedFile->Read( localFileHeaderPosition + removedLocalDataSize, readSize2, (void*)readData2 );
 	
-		fpOpenedFile->Close();
-		fpOpenedFile->Open( fpOpenedFileID, false );
+		fpOpenedFile->CleanBuffer();
 	
 		Uint64 currentWritePosition = 0;
 		this->WriteToFile( (void*)readData1, currentWritePosition, readSize1 );
@@ -785,24 +784,13 @@ VCOMError CZIPFileImpl::RemoveFile(const TXString& path)
 		this->WriteCentralDirectoryHeader( &zipArchiveInfo, &arrFileInfos, currentWritePosition );
 		this->WriteEndHeader( &zipArchiveInfo, currentWritePosition );
 
-		fpOpenedFile->Close();
-	
-		if ( fbOpenedWrite )
-		{
-			fpOpenedFile->Open( fpOpenedFileID, false );
-		}
-		else 
-		{
-			fpOpenedFile->Open( fpOpenedFileID, true );
-		}
-	
 		if ( readData1 )
 			delete [] readData1;
 		if ( readData2 )
 			delete [] readData2;
 	}
 
-	return kVCOMError_NoError;
+	return err;
 }
 
 VCOMError CZIPFileImpl::MoveFile(const TXString& path)
-- 
2.43.0


From 4e91f678af4b74cca94ac421bf4e98593668a400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 35/92] fix: text that is not well formed UTF-8 or UTF-16 no
 longer throws

---
 src/GSString.cpp | 63 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 60 insertions(+), 3 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 05cbb36..042a016 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -41,6 +41,63 @@ inline void utf32BufferToTXCharBuffer(const char32_t* input, TXChar* output, siz
 inline void txCharBufferToUtf32Buffer(const TXChar* input, char32_t* output, size_t bufElemNum = -1);
 inline void utf8BufferToTXCharBuffer(const char* const input, TXChar* output, size_t inputLen);
 
+#if GS_LIN
+//=======================================================================================
+// Copies UTF-8 text. Every byte that does not belong to a well formed sequence becomes '?',
+// because the standard conversions throw on such input.
+static std::string replaceMalformedUtf8(const char* input, size_t inputLen)
+{
+	std::string result;
+	result.reserve(inputLen);
+
+	size_t i = 0;
+	while (i < inputLen)
+	{
+		const unsigned char lead = (unsigned char)input[i];
+		size_t		followers = 0;
+		char32_t	value     = 0;
+		char32_t	lowest    = 0;
+
+		if      (lead < 0x80)			{ followers = 0; value = lead; }
+		else if ((lead & 0xE0) == 0xC0)	{ followers = 1; value = lead & 0x1F; lowest = 0x80; }
+		else if ((lead & 0xF0) == 0xE0)	{ followers = 2; value = lead & 0x0F; lowest = 0x800; }
+		else if ((lead & 0xF8) == 0xF0)	{ followers = 3; value = lead & 0x07; lowest = 0x10000; }
+		else							{ lowest = 1; }
+
+		bool valid = i + followers < inputLen;
+		for (size_t k = 1; valid && k <= followers; k++)
+		{
+			const unsigned char c = (unsigned char)input[i + k];
+			valid = (c & 0xC0) == 0x80;
+			value = (value << 6) | (c & 0x3F);
+		}
+		valid = valid && value >= lowest && value <= 0x10FFFF && (value < 0xD800 || value > 0xDFFF);
+
+		if (valid)	{ result.append(input + i, followers + 1); i += followers + 1; }
+		else		{ result.push_back('?'); i++; }
+	}
+
+	return result;
+}
+
+//=======================================================================================
+// Copies UTF-16 text. Every surrogate without its partner becomes '?'.
+static std::u16string replaceUnpairedSurrogates(const std::u16string& input)
+{
+	std::u16string result(input);
+
+	for (size_t i = 0; i < result.size(); i++)
+	{
+		if (result[i] < 0xD800 || result[i] > 0xDFFF) { continue; }
+
+		if (result[i] < 0xDC00 && i + 1 < result.size() && result[i + 1] >= 0xDC00 && result[i + 1] <= 0xDFFF)	{ i++; }
+		else																									{ result[i] = u'?'; }
+	}
+
+	return result;
+}
+#endif
+
 //#######################################################################################
 // TXString class
 //#######################################################################################
@@ -2403,12 +2460,12 @@ void TXString::PrepareCharBuffer(ETXEncoding encoding) const
 	if (len > charBufSize)
 	{
 		charBufSize = len;
-		if (charPtr) delete charPtr;
+		if (charPtr) ::operator delete(charPtr);
 		charPtr = (char*)::operator new(charBufSize);
 	}
 
 	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> convert;
-	std::string str = convert.to_bytes(stdUStr);
+	std::string str = convert.to_bytes(replaceUnpairedSurrogates(stdUStr));
 
 	size_t strLen = str.size();
 	for (size_t i = 0; i < charBufSize && i < strLen; i++)
@@ -2525,7 +2582,7 @@ void TXString::SetStdUStrFromCharBuffer(const char* src, size_t srcLenToUse, ETX
 #elif GS_LIN
 	// LINUX_IMPLEMENTATION - done
 	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> converter;
-	std::string strSrc = std::string(src, strLen);
+	std::string strSrc = replaceMalformedUtf8(src, strLen);
 	stdUStr = converter.from_bytes(strSrc);
 #else	// Mac
 	if(encoding == ETXEncoding::eUTF8)
-- 
2.43.0


From dfb9ccfdc316700be7a71ca28ebadd2174a5330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 36/92] fix: DMX values outside the representable range are
 reported

---
 src/XmlFileHelper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 194347b..53b4c07 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -712,7 +712,10 @@ bool SceneData::GdtfConverter::ConvertDMXValue(const TXString& strValue, const I
 	double dmxValueRaw    = firstPart.atof();
 	Sint32 byteSpecifier = secndPart.atoi();
 
-	if( ! (firstPart.IsCompleteNumber() && secndPart.IsCompleteNumber()))
+	const bool isInRange = dmxValueRaw >= 0 && dmxValueRaw <= (double)GetChannelMaxDmx(eGdtfChannelBitResolution_32) 
+						&& (!byteShifting || (byteSpecifier >= eGdtfChannelBitResolution_8 && byteSpecifier <= eGdtfChannelBitResolution_32));
+
+	if( ! (firstPart.IsCompleteNumber() && secndPart.IsCompleteNumber() && isInRange))
 	{
 		GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_DmxValueHasWrongValue, node);
         SceneData::GdtfFixture::AddError(error);
-- 
2.43.0


From 6a27f3f556d2beb2ecba347d6754e836d4e57edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 37/92] fix: SHA-256 of unaligned data without undefined
 behaviour

---
 src/sha256/sha256.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sha256/sha256.cpp b/src/sha256/sha256.cpp
index 2c3d9af..4a215b9 100644
--- a/src/sha256/sha256.cpp
+++ b/src/sha256/sha256.cpp
@@ -90,7 +90,8 @@ void SHA256::processBlock(const void* data)
   uint32_t h = m_hash[7];
 
   // data represented as 16x 32-bit words
-  const uint32_t* input = (uint32_t*) data;
+  uint32_t input[16]; // the data may have any alignment
+  memcpy(input, data, sizeof(input));
   // convert to big endian
   uint32_t words[64];
   int i;
@@ -327,7 +328,7 @@ void SHA256::processBuffer()
   if (paddedLength < BlockSize)
     addLength = m_buffer + paddedLength;
   else
-    addLength = extra + paddedLength - BlockSize;
+    addLength = extra + (paddedLength - BlockSize);
 
   // must be big endian
   *addLength++ = (unsigned char)((msgBits >> 56) & 0xFF);
-- 
2.43.0


From 910957d513e6f668c26bb55cf51e6a93fe31bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 38/92] fix: replacing the empty string comes to an end

---
 src/GSString.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 042a016..cd7cba7 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -1403,6 +1403,8 @@ TXString& TXString::Replace(const TXString& oldStr, const TXString& newStr, bool
 {
 	size_t dstStartPos = 0;
 
+	if (oldStr.IsEmpty()) { return *this; }
+
 	if (bIgnoreCase)
 	{
 		TXString lowerSrcStr(*this);
-- 
2.43.0


From 32ba0630b3cd5a307e5913cc6bc3be76bfed0666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 39/92] fix: atoi64 reads 64-bit numbers

---
 src/GSString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index cd7cba7..ff0d913 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -2086,7 +2086,7 @@ Sint32 TXString::atoi() const
 // number is returned. e.g. " 123 123 " returns 123.
 Sint64 TXString::atoi64() const
 {
-	return ::atoi(*this);
+	return ::atoll(*this);
 }
 
 //=======================================================================================
-- 
2.43.0


From c10cb3ab1e1b0f9361728b44c855d8a4f789331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 40/92] fix: wide strings are read within their length and lone
 surrogates do not throw

---
 src/GSString.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index ff0d913..70764b5 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -322,7 +322,7 @@ TXString::TXString(const wchar_t* src, size_t numWChars)
 #if GS_WIN
 		stdUStr.assign(src, length);
 #elif GS_LIN
-		std::u32string wSrc((const char32_t*)src, numWChars);
+		std::u32string wSrc((const char32_t*)src, length);
 		std::wstring_convert<std::codecvt_utf16<char32_t>, char32_t> convert;
 		std::string bytes = convert.to_bytes(wSrc);
 
@@ -1601,7 +1601,8 @@ std::wstring TXString::GetStdWString() const
 #elif GS_LIN
 	std::wstring_convert<std::codecvt_utf16<wchar_t, 0x10ffff, std::little_endian>> converter;
 
-	return converter.from_bytes((const char*)stdUStr.data(), (const char*)(stdUStr.data() + stdUStr.length()));
+	const std::u16string str = replaceUnpairedSurrogates(stdUStr);
+	return converter.from_bytes((const char*)str.data(), (const char*)(str.data() + str.length()));
 #else
 	std::wstring_convert<std::codecvt_utf16<wchar_t, 0x10ffff, std::little_endian>> converter;
 
@@ -1728,7 +1729,7 @@ void TXString::CopyInto(wchar_t* dst, size_t bufElemSize) const
 		std::string bytes;
 		bytes.reserve(stdUStr.size() * 2);
 
-		for (const char16_t c : stdUStr) {
+		for (const char16_t c : replaceUnpairedSurrogates(stdUStr)) {
 			bytes.push_back(static_cast<char>(c / 256));
 			bytes.push_back(static_cast<char>(c % 256));
 		}
-- 
2.43.0


From 8e878db290daf0a358a83d1aa78e37284a5678cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 41/92] fix: splitting a string comes to an end and gives the
 parts

---
 src/GSString.cpp | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 70764b5..1e51c35 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -2021,20 +2021,18 @@ std::vector<TXString> TXString::Split(char ch) const
 {
 	std::vector<TXString> result;
 
-	size_t lastOccurrence = 0;
+	size_t partBegin = 0;
 
-	while(lastOccurrence < size_t(-1))
+	while(partBegin < GetLength())
 	{
-		size_t pos = Find(ch, lastOccurrence + 1);
-		if(pos != 0)
-		{
-			result.push_back(Mid(lastOccurrence, pos - lastOccurrence));
-		}
-		lastOccurrence = pos + 1;
-		if(pos + 1 == GetLength())
+		const ptrdiff_t pos = Find(ch, partBegin);
+		if(pos < 0)
 		{
+			result.push_back(Mid(partBegin));
 			break;
 		}
+		result.push_back(Mid(partBegin, (size_t)pos - partBegin));
+		partBegin = (size_t)pos + 1;
 	}
 
 	return result;
@@ -2048,20 +2046,18 @@ std::vector<TXString> TXString::Split(TXString ch) const
 	
 	std::vector<TXString> result;
 
-	size_t lastOccurrence = 0;
+	size_t partBegin = 0;
 
-	while(lastOccurrence < size_t(-1))
+	while(partBegin < GetLength())
 	{
-		size_t pos = Find(ch, lastOccurrence + 1);
-		if(pos != 0)
-		{
-			result.push_back(Mid(lastOccurrence, pos - lastOccurrence));
-		}
-		lastOccurrence = pos + 1;
-		if(pos + 1 == GetLength())
+		const ptrdiff_t pos = Find(ch, partBegin);
+		if(pos < 0)
 		{
+			result.push_back(Mid(partBegin));
 			break;
 		}
+		result.push_back(Mid(partBegin, (size_t)pos - partBegin));
+		partBegin = (size_t)pos + ch.GetLength();
 	}
 
 	return result;
-- 
2.43.0


From dc22c8679219d3299a9c5a610558a8a7dc2d87a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 42/92] fix: a DMX value of an unknown byte count is not
 converted by an invalid resolution

---
 src/XmlFileHelper.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 53b4c07..f372198 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -712,8 +712,9 @@ bool SceneData::GdtfConverter::ConvertDMXValue(const TXString& strValue, const I
 	double dmxValueRaw    = firstPart.atof();
 	Sint32 byteSpecifier = secndPart.atoi();
 
+	const bool isKnownResolution = byteSpecifier >= eGdtfChannelBitResolution_8 && byteSpecifier <= eGdtfChannelBitResolution_32;
 	const bool isInRange = dmxValueRaw >= 0 && dmxValueRaw <= (double)GetChannelMaxDmx(eGdtfChannelBitResolution_32) 
-						&& (!byteShifting || (byteSpecifier >= eGdtfChannelBitResolution_8 && byteSpecifier <= eGdtfChannelBitResolution_32));
+						&& (!byteShifting || isKnownResolution);
 
 	if( ! (firstPart.IsCompleteNumber() && secndPart.IsCompleteNumber() && isInRange))
 	{
@@ -743,7 +744,11 @@ bool SceneData::GdtfConverter::ConvertDMXValue(const TXString& strValue, const I
 	}
 	else
 	{
-		if (byteSpecifier != chanlReso) 
+		if (!isKnownResolution)
+		{
+			intValue = 0;
+		}
+		else if (byteSpecifier != chanlReso) 
 		{
 			DmxValue maxResolution  = GetChannelMaxDmx((EGdtfChannelBitResolution)byteSpecifier);        
 			DmxValue maxChannelUnit = GetChannelMaxDmx(chanlReso);
-- 
2.43.0


From 29b1a9b46c866c5c4bffee38b06e2d6016a93c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 43/92] fix: searching a character regardless of case

---
 src/GSString.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 1e51c35..6c50dca 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -1808,7 +1808,7 @@ ptrdiff_t TXString::Find(int ch,
 
 	if (bIgnoreCase)
 	{	// Ignore case is more expensive.
-		TXString strCh((TXChar)ch);
+		TXString strCh((UCChar)ch);
 		strCh.MakeLower();
 
 		TXString strCopy(*this);
@@ -1885,7 +1885,7 @@ ptrdiff_t TXString::ReverseFind(int ch,
 		TXString srcStr(*this);
 		srcStr.MakeLower();
 
-		TXString chStr((TXChar)ch);
+		TXString chStr((UCChar)ch);
 		chStr.MakeLower();
 
 		pos = srcStr.stdUStr.rfind(chStr.stdUStr[0], posLast);
-- 
2.43.0


From 2042962add50627f6eec33d8908d60b4a85cc0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 44/92] fix: RGB to CIE conversion is the inverse of CIE to RGB

---
 src/CieColor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CieColor.cpp b/src/CieColor.cpp
index 783f66f..4721602 100644
--- a/src/CieColor.cpp
+++ b/src/CieColor.cpp
@@ -38,6 +38,10 @@ CCieColor::CCieColor(const CRGBColor& color)
 	r /= UINT8_MAX;
 	g /= UINT8_MAX;
 	b /= UINT8_MAX;	
+
+	r = (r > 0.04045) ? pow((r + 0.055) / 1.055, 2.4) : r / 12.92;
+	g = (g > 0.04045) ? pow((g + 0.055) / 1.055, 2.4) : g / 12.92;
+	b = (b > 0.04045) ? pow((b + 0.055) / 1.055, 2.4) : b / 12.92;
 	
 	// Convert RGB  to CIE_xyz // range [0..1]
 	double x_tmp, y_tmp, z_tmp;
@@ -119,13 +123,13 @@ void CCieColor::GetRGBColor(CRGBColor& rgb) const
 	
 
 	// Clamp between 0 and 1
-	if (r < 0) { r = 0; };  if (g < 0){ g = 0; }; if (b < 0){ b = 0; };
+	if (!(r > 0)) { r = 0; };  if (!(g > 0)){ g = 0; }; if (!(b > 0)){ b = 0; };
 	if (r > 1) { r = 1; };  if (g > 1){ g = 1; }; if (b > 1){ b = 1; };
 
 	// Convert linearRGB[0..1] to sRGB [0..255]
 	r *= 255;	g *= 255;	b *= 255;
 
-	rgb.SetColor((Sint32) r, (Sint32) g, (Sint32)b);
+	rgb.SetColor((Sint32) (r + 0.5), (Sint32) (g + 0.5), (Sint32) (b + 0.5));
 }
 
 void CCieColor::CheckRGBValue(Uint8& value) const
-- 
2.43.0


From e5b6e4f3f693d22236c5cb73e1b6bcb395c27d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 45/92] fix: a code of no bits ends the decompression instead
 of repeating for ever

---
 src/Minizip/Source/miniz.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Minizip/Source/miniz.c b/src/Minizip/Source/miniz.c
index b42ae1a..2c9dc91 100644
--- a/src/Minizip/Source/miniz.c
+++ b/src/Minizip/Source/miniz.c
@@ -1384,7 +1384,9 @@ const char *mz_error(int err)
     code_len = temp >> 9, temp &= 511; \
   else { \
     code_len = TINFL_FAST_LOOKUP_BITS; do { temp = (pHuff)->m_tree[~temp + ((bit_buf >> code_len++) & 1)]; } while (temp < 0); \
-  } sym = temp; bit_buf >>= code_len; num_bits -= code_len; } MZ_MACRO_END
+  } \
+  if (!code_len) { TINFL_CR_RETURN_FOREVER((state_index) + 100, TINFL_STATUS_FAILED); } \
+  sym = temp; bit_buf >>= code_len; num_bits -= code_len; } MZ_MACRO_END
 
 tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_next, size_t *pIn_buf_size, mz_uint8 *pOut_buf_start, mz_uint8 *pOut_buf_next, size_t *pOut_buf_size, const mz_uint32 decomp_flags)
 {
@@ -1540,6 +1542,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
             {
               code_len = TINFL_FAST_LOOKUP_BITS; do { sym2 = r->m_tables[0].m_tree[~sym2 + ((bit_buf >> code_len++) & 1)]; } while (sym2 < 0);
             }
+            if (!code_len) { TINFL_CR_RETURN_FOREVER(54, TINFL_STATUS_FAILED); }
             counter = sym2; bit_buf >>= code_len; num_bits -= code_len;
             if (counter & 256)
               break;
@@ -1553,6 +1556,7 @@ tinfl_status tinfl_decompress(tinfl_decompressor *r, const mz_uint8 *pIn_buf_nex
             {
               code_len = TINFL_FAST_LOOKUP_BITS; do { sym2 = r->m_tables[0].m_tree[~sym2 + ((bit_buf >> code_len++) & 1)]; } while (sym2 < 0);
             }
+            if (!code_len) { TINFL_CR_RETURN_FOREVER(55, TINFL_STATUS_FAILED); }
             bit_buf >>= code_len; num_bits -= code_len;
 
             pOut_buf_cur[0] = (mz_uint8)(counter&0xFF);
-- 
2.43.0


From 50adb32a6177e02a52ec1f00d8e24c22c53e8aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 46/92] fix: MVR-xchange strings of a peer are cut to the size
 of their buffers

---
 src/mvrxchange/mvrxchange_message.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 71787b6..aaa506d 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -167,11 +167,11 @@ void MVR_COMMIT_ToJson(const IMVRxchangeService::MVR_COMMIT_MESSAGE& msg, nlohma
 
 void MVR_COMMIT_FromJson(const nlohmann::json& payload, IMVRxchangeService::MVR_COMMIT_MESSAGE& in)
 {
-    strcpy(in.Comment, payload["Comment"].get<std::string>().c_str());
+    in.Comment = payload["Comment"].get<std::string>().c_str();
     in.VersionMajor= payload["verMajor"];
     in.VersionMinor= payload["verMinor"];
     in.FileSize= payload["FileSize"];
-    strcpy(in.FileName, payload["FileName"].get<std::string>().c_str());
+    in.FileName = payload["FileName"].get<std::string>().c_str();
 
     SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.FileUUID);
     SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.StationUUID);
@@ -344,8 +344,8 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN;
         in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
         in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        strcpy(in.JOIN.Provider, payload["Provider"].get<std::string>().c_str());
-        strcpy(in.JOIN.StationName, payload["StationName"].get<std::string>().c_str());
+        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
+        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
         noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
 
         in.JOIN.Commits.clear();
@@ -360,12 +360,12 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN_RET;
         in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
         in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        strcpy(in.JOIN.Provider, payload["Provider"].get<std::string>().c_str());
-        strcpy(in.JOIN.StationName, payload["StationName"].get<std::string>().c_str());
+        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
+        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
         noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
 
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
 
         in.JOIN.Commits.clear();
         for (auto &it : payload["Commits"])
@@ -383,7 +383,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }
     else if (payload["Type"] == "MVR_REQUEST")
     {
@@ -405,7 +405,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }
     else if (payload["Type"] == "MVR_LEAVE")
     {
@@ -423,7 +423,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }else{
         throw std::runtime_error("Unable to parse payload type correctly");
     }
-- 
2.43.0


From 650afc9a10b87a44327ef4cfe6ff2cd0b9067772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 47/92] fix: MVR-xchange messages without a member or with a
 number out of range are refused

---
 src/mvrxchange/mvrxchange_message.cpp | 113 ++++++++++++++++----------
 1 file changed, 72 insertions(+), 41 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index aaa506d..79980c9 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -165,20 +165,51 @@ void MVR_COMMIT_ToJson(const IMVRxchangeService::MVR_COMMIT_MESSAGE& msg, nlohma
 
 }
 
+// A number of a peer, throws if it does not fit in T
+template <typename T>
+T ToUnsigned(const nlohmann::json& item)
+{
+    if(item.is_number_unsigned())
+    {
+        const uint64_t value = item.get<uint64_t>();
+        if(value <= std::numeric_limits<T>::max())
+        {
+            return static_cast<T>(value);
+        }
+    }
+    else if(item.is_number_integer())
+    {
+        throw std::out_of_range("Number is negative");
+    }
+    else if(item.is_number_float())
+    {
+        const double value = item.get<double>();
+        if(value >= 0.0 && value < static_cast<double>(std::numeric_limits<T>::max()))
+        {
+            return static_cast<T>(value);
+        }
+    }
+    else
+    {
+        throw std::invalid_argument("Number expected");
+    }
+    throw std::out_of_range("Number is out of range");
+}
+
 void MVR_COMMIT_FromJson(const nlohmann::json& payload, IMVRxchangeService::MVR_COMMIT_MESSAGE& in)
 {
-    in.Comment = payload["Comment"].get<std::string>().c_str();
-    in.VersionMajor= payload["verMajor"];
-    in.VersionMinor= payload["verMinor"];
-    in.FileSize= payload["FileSize"];
-    in.FileName = payload["FileName"].get<std::string>().c_str();
+    in.Comment = payload.at("Comment").get<std::string>().c_str();
+    in.VersionMajor = ToUnsigned<uint32_t>(payload.at("verMajor"));
+    in.VersionMinor = ToUnsigned<uint32_t>(payload.at("verMinor"));
+    in.FileSize = ToUnsigned<uint64_t>(payload.at("FileSize"));
+    in.FileName = payload.at("FileName").get<std::string>().c_str();
 
-    SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.FileUUID);
-    SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.StationUUID);
+    SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.FileUUID);
+    SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.StationUUID);
 
     in.ForStationsUUID.clear();
     // TODO
-    for(const auto& e : payload["ForStationsUUID"])
+    for(const auto& e : payload.at("ForStationsUUID"))
     {
         in.ForStationsUUID.emplace_back();
         if(!SceneData::GdtfConverter::ConvertUUID(e.get<std::string>(), in.ForStationsUUID.back())){
@@ -318,7 +349,7 @@ uint32_t HandleStringNumber(const nlohmann::json& item)
 {
     if(item.is_number())
     {
-        return item.get<uint32_t>();
+        return ToUnsigned<uint32_t>(item);
     }else
     {
         return std::stoul(item.get<std::string>());
@@ -339,60 +370,60 @@ bool HandleStringBool(const nlohmann::json& item)
 void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload, VectorworksMVR::IMVRxchangeService::IMVRxchangeMessage &in)
 {
     bool noUUIDError = true;
-    if (payload["Type"] == "MVR_JOIN")
+    if (payload.at("Type") == "MVR_JOIN")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN;
-        in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
-        in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
-        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
+        in.JOIN.VersionMajor = HandleStringNumber(payload.at("verMajor"));
+        in.JOIN.VersionMinor = HandleStringNumber(payload.at("verMinor"));
+        in.JOIN.Provider = payload.at("Provider").get<std::string>().c_str();
+        in.JOIN.StationName = payload.at("StationName").get<std::string>().c_str();
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.JOIN.StationUUID);
 
         in.JOIN.Commits.clear();
-        for (auto &it : payload["Commits"])
+        for (auto &it : payload.at("Commits"))
         {
             in.JOIN.Commits.emplace_back();
             MVR_COMMIT_FromJson(it, in.JOIN.Commits.back());
         }
     }
-    else if (payload["Type"] == "MVR_JOIN_RET")
+    else if (payload.at("Type") == "MVR_JOIN_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN_RET;
-        in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
-        in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
-        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
+        in.JOIN.VersionMajor = HandleStringNumber(payload.at("verMajor"));
+        in.JOIN.VersionMinor = HandleStringNumber(payload.at("verMinor"));
+        in.JOIN.Provider = payload.at("Provider").get<std::string>().c_str();
+        in.JOIN.StationName = payload.at("StationName").get<std::string>().c_str();
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.JOIN.StationUUID);
 
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
 
         in.JOIN.Commits.clear();
-        for (auto &it : payload["Commits"])
+        for (auto &it : payload.at("Commits"))
         {
             in.JOIN.Commits.emplace_back();
             MVR_COMMIT_FromJson(it, in.JOIN.Commits.back());
         }
     }
-    else if (payload["Type"] == "MVR_COMMIT")
+    else if (payload.at("Type") == "MVR_COMMIT")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT;
         MVR_COMMIT_FromJson(payload, in.COMMIT);
     }
-    else if (payload["Type"] == "MVR_COMMIT_RET")
+    else if (payload.at("Type") == "MVR_COMMIT_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }
-    else if (payload["Type"] == "MVR_REQUEST")
+    else if (payload.at("Type") == "MVR_REQUEST")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST;
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.REQUEST.FileUUID);
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.REQUEST.FileUUID);
 
         in.REQUEST.FromStationUUID.clear();
         // TODO
-        for (const auto &e : payload["FromStationUUID"])
+        for (const auto &e : payload.at("FromStationUUID"))
         {
             in.REQUEST.FromStationUUID.emplace_back();
             if (!SceneData::GdtfConverter::ConvertUUID(e.get<std::string>(), in.REQUEST.FromStationUUID.back()))
@@ -401,29 +432,29 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
             }
         }
     }
-    else if (payload["Type"] == "MVR_REQUEST_RET")
+    else if (payload.at("Type") == "MVR_REQUEST_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }
-    else if (payload["Type"] == "MVR_LEAVE")
+    else if (payload.at("Type") == "MVR_LEAVE")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE;
         if ( payload.contains( "FromStationUUID" ) )
         {
-            noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["FromStationUUID"].get<std::string>(), in.LEAVE.FromStationUUID);
+            noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("FromStationUUID").get<std::string>(), in.LEAVE.FromStationUUID);
         }
         else if ( payload.contains( "StationUUID" ) )
         {
-            noUUIDError = SceneData::GdtfConverter::ConvertUUID( payload[ "StationUUID" ].get<std::string>(), in.LEAVE.FromStationUUID );
+            noUUIDError = SceneData::GdtfConverter::ConvertUUID( payload.at("StationUUID").get<std::string>(), in.LEAVE.FromStationUUID );
         }
     }
-    else if (payload["Type"] == "MVR_LEAVE_RET")
+    else if (payload.at("Type") == "MVR_LEAVE_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }else{
         throw std::runtime_error("Unable to parse payload type correctly");
     }
-- 
2.43.0


From ffd3e0d15613ae1b0e5b45b5653cf3bb12e68216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:26 +0000
Subject: [PATCH 48/92] fix: a MVR-xchange message whose type is not a string
 is refused

---
 src/mvrxchange/mvrxchange_message.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 79980c9..ccd6f77 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -352,7 +352,7 @@ uint32_t HandleStringNumber(const nlohmann::json& item)
         return ToUnsigned<uint32_t>(item);
     }else
     {
-        return std::stoul(item.get<std::string>());
+        return ToUnsigned<uint32_t>(nlohmann::json(std::stoul(item.get<std::string>())));
     }
 }
 
@@ -491,12 +491,11 @@ void MVRxchangePacket::ToExternalMessage(VectorworksMVR::IMVRxchangeService::IMV
             return;
         }
 
-        MVRXCHANGE_LOG("received message of type: " << payload["Type"].get<std::string>());
-
         try
         {
             // Reset type
             in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_UNDEFINED;
+            MVRXCHANGE_LOG("received message of type: " << payload["Type"].get<std::string>());
             Internal_ToExternalMessage(payload, in);
         }
         catch (const std::exception &e)
-- 
2.43.0


From 332609b545ba8353aa62d9f654d89675b2600704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 49/92] fix: a MVR-xchange message with malformed UTF-8 is sent
 instead of throwing

---
 src/mvrxchange/mvrxchange_message.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index ccd6f77..89e3e2b 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -333,8 +333,8 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
     }
     else
     {
-        MVRXCHANGE_DEBUG("outgoing message:\n" << payload.dump(4));
-        std::string s = payload.dump();
+        MVRXCHANGE_DEBUG("outgoing message:\n" << payload.dump(4, ' ', false, nlohmann::json::error_handler_t::replace));
+        std::string s = payload.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
         fBodyLength = s.size();
         fType       = kMVR_Package_JSON_TYPE;
 
-- 
2.43.0


From bb11cdbf01c237c2bf1462fdbac43807f525707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 50/92] fix: an undefined MVR-xchange message, as sent without
 a callback, does not throw

---
 src/mvrxchange/mvrxchange_message.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 89e3e2b..ae754c3 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -295,6 +295,9 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
 
         break;
     default:
+        payload["Type"]             = "MVR_UNDEFINED";
+        payload["OK"]               = false;
+        payload["Message"]          = in.RetError;
         break;
     }
 
-- 
2.43.0


From 1e8da46aa795525bca43ce51f674ad143378ec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 51/92] fix: the buffer of a MVR-xchange packet has room for
 its header, and a length that cannot be allocated is refused

---
 src/mvrxchange/mvrxchange_dynamic_buffer.cpp | 14 ++++++++++----
 src/mvrxchange/mvrxchange_dynamic_buffer.h   |  2 +-
 src/mvrxchange/mvrxchange_message.cpp        |  6 +++++-
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_dynamic_buffer.cpp b/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
index 71e8816..45c91d3 100644
--- a/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
+++ b/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
@@ -123,7 +123,7 @@ void MVRxchangeDynamicBuffer::Append(size_t size, const void* pBuffer)
 }
 
 
-void MVRxchangeDynamicBuffer::GrowTo(size_t size)
+bool MVRxchangeDynamicBuffer::GrowTo(size_t size)
 {
     // Check how much memory we need
 	size_t needToAllocate = size + 1;
@@ -131,11 +131,16 @@ void MVRxchangeDynamicBuffer::GrowTo(size_t size)
 	// When we already have enought memory, just copy
 	if (fAllocatedMemory < needToAllocate)
 	{
+		// Create new Buffer
+		char* tempBuffer = new (std::nothrow) char[needToAllocate];
+		if(!tempBuffer)
+		{
+			return false;
+		}
+
 		// Calculate the new needed buffer
 		fAllocatedMemory = needToAllocate;
 
-		// Create new Buffer
-		char* tempBuffer = new char[fAllocatedMemory];
 		if(fBuffer)
 		{
 			memcpy(tempBuffer, fBuffer, fBufferSize);
@@ -143,13 +148,14 @@ void MVRxchangeDynamicBuffer::GrowTo(size_t size)
 		}
 
 		// Set the new Buffer size
-		fBufferSize = fBufferSize + (size_t)size;
+		fBufferSize = size;
 
 		// Set the new Buffer
 		fBuffer = tempBuffer;
 
 	}
 
+	return true;
 }
 
 void MVRxchangeDynamicBuffer::Reserve(size_t size)
diff --git a/src/mvrxchange/mvrxchange_dynamic_buffer.h b/src/mvrxchange/mvrxchange_dynamic_buffer.h
index 82ddc5c..471bdb7 100644
--- a/src/mvrxchange/mvrxchange_dynamic_buffer.h
+++ b/src/mvrxchange/mvrxchange_dynamic_buffer.h
@@ -18,7 +18,7 @@ namespace MVRxchangeNetwork
         void                    FromBuffer(const MVRxchangeDynamicBuffer& );
 
         void                    Reserve(size_t size);
-        void                    GrowTo(size_t size);
+        bool                    GrowTo(size_t size);
         void                    Append(size_t size, const void* pBuffer);
         void                    DisposeBuffer();
         const size_t&           Length() const;
diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index ae754c3..2360cb6 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -113,7 +113,11 @@ bool MVRxchangePacket::DecodeHeader()
     fBodyLength = swap_endian(fBodyLength);
 
     // Prepare Buffer
-    fData->GrowTo(fBodyLength);
+    if (fBodyLength > std::numeric_limits<size_t>::max() / 2 || !fData->GrowTo(total_header_length + fBodyLength))
+    {
+        fBodyLength = 0;
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From 5cc601f98154edd8c27187f9cfd7cfb117009200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 52/92] fix: the version of a MVR-xchange packet is not left
 uninitialised

---
 src/mvrxchange/mvrxchange_message.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 2360cb6..355422f 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -30,6 +30,7 @@ T swap_endian(T u)
 MVRxchangePacket::MVRxchangePacket()
 {
     fFlag       = kMVR_Package_Flag;
+    fVersion    = 1;
     fNumber     = 0;
     fCount      = 0;
     fType       = 0;
@@ -308,6 +309,7 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
     MVRXCHANGE_LOG("sending message of type: " << payload["Type"].get<std::string>());
 
     fFlag       = kMVR_Package_Flag;
+    fVersion    = 1;
     fNumber     = 0;
     fCount      = 1;
 
-- 
2.43.0


From 9d322ac2d371899752042e9c798790f4b8c380c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 53/92] fix: the file buffer of a sent MVR_REQUEST_RET is
 deleted once

---
 src/mvrxchange/CMVRxchangeService.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 1eb906f..151b05d 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -272,7 +272,11 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::Send_message(const SendMessage
 		}
 	}
 	
-	delete[] messageHandler.Message.BufferToFile;
+	// The buffer of an answered request is already deleted by the packet
+	if(!(messageHandler.Message.Type == MVRxchangeMessageType::MVR_REQUEST_RET && messageHandler.Message.RetIsOK))
+	{
+		delete[] messageHandler.Message.BufferToFile;
+	}
 
 	return kVCOMError_NoError;
 }
-- 
2.43.0


From 0ec0f74855cd646d76cbe303661205cefef59921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 54/92] fix: a station that sent MVR_LEAVE gets no more
 messages

---
 src/mvrxchange/CMVRxchangeService.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 151b05d..4c836cc 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -339,17 +339,13 @@ IMVRxchangeService::IMVRxchangeMessage CMVRxchangeServiceImpl::TCP_OnIncommingMe
     }
 	else if(in.Type == MVRxchangeMessageType::MVR_LEAVE)
 	{
-		MVRxchangeGroupMember newItem;
-		if(GetSingleMemberOfService(in.LEAVE.FromStationUUID, newItem) != kVCOMError_NoError)
-		{
-			std::lock_guard<std::mutex> lock(fMvrGroupMutex);
-			fMVRGroup.erase(
-				std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&newItem](const MVRxchangeGroupMember& it){
-					return it.stationUUID == newItem.stationUUID;
-				}),
-				fMVRGroup.end()
-			);
-		}
+		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+		fMVRGroup.erase(
+			std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&in](const MVRxchangeGroupMember& it){
+				return it.stationUUID == in.LEAVE.FromStationUUID;
+			}),
+			fMVRGroup.end()
+		);
 	}
 
 	IMVRxchangeService::IMVRxchangeMessage ret;
-- 
2.43.0


From 4895df427d420a218c9a75eba08398fc33bfcee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:57 +0000
Subject: [PATCH 55/92] fix: GetLocalServiceAt refuses the index behind the
 last service

---
 src/mvrxchange/CMVRxchangeService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 4c836cc..84235cd 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -177,7 +177,7 @@ VCOMError VCOM_CALLTYPE  CMVRxchangeServiceImpl::QueryLocalServices(size_t& out_
 VCOMError VCOM_CALLTYPE VectorworksMVR::CMVRxchangeServiceImpl::GetLocalServiceAt(size_t index, ConnectToLocalServiceArgs& outLocalService)
 {
 	std::lock_guard<std::mutex> lock (fQueryLocalServicesResult_mtx);
-	if ( fQueryLocalServicesResult.size() < index)
+	if ( fQueryLocalServicesResult.size() <= index)
 	{
 		return kVCOMError_Failed;
 	}
-- 
2.43.0


From da037a1ee54ed51c86654643528cab174e6e5a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 56/92] fix: a MVR-xchange peer that closed its connection does
 not throw

---
 src/mvrxchange/mvrxchange_client.cpp  | 8 ++++++--
 src/mvrxchange/mvrxchange_server.cpp  | 3 ++-
 src/mvrxchange/mvrxchange_session.cpp | 8 ++++++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_client.cpp b/src/mvrxchange/mvrxchange_client.cpp
index 605b92b..d043fb7 100644
--- a/src/mvrxchange/mvrxchange_client.cpp
+++ b/src/mvrxchange/mvrxchange_client.cpp
@@ -61,9 +61,13 @@ bool MVRxchangeClient::ReadMessage(SendResult& res, std::chrono::steady_clock::d
 
     if(res.success)
     {
+        // The peer may be gone already
+        boost::system::error_code endpointError;
+        const tcp::endpoint endpoint = this->fSocket.remote_endpoint(endpointError);
+
         res.messageInfo = TCPMessageInfo {
-            this->fSocket.remote_endpoint().port(),
-            this->fSocket.remote_endpoint().address().to_string()
+            endpoint.port(),
+            endpoint.address().to_string()
         };
     }
 
diff --git a/src/mvrxchange/mvrxchange_server.cpp b/src/mvrxchange/mvrxchange_server.cpp
index 31f95fe..e51ff8b 100644
--- a/src/mvrxchange/mvrxchange_server.cpp
+++ b/src/mvrxchange/mvrxchange_server.cpp
@@ -38,7 +38,8 @@ void MVRxchangeServer::DoAccept()
     {
         if (!ec)
         {
-            MVRXCHANGE_DEBUG("incoming message from: " << socket.remote_endpoint().address().to_string() << ":" << std::to_string(socket.remote_endpoint().port()));
+            boost::system::error_code endpointError;
+            MVRXCHANGE_DEBUG("incoming message from: " << socket.remote_endpoint(endpointError).address().to_string() << ":" << std::to_string(socket.remote_endpoint(endpointError).port()));
             auto session = std::make_shared<MVRxchangeSession>(std::move(socket), fImpl, this);
 
             AddSession(session);
diff --git a/src/mvrxchange/mvrxchange_session.cpp b/src/mvrxchange/mvrxchange_session.cpp
index edde755..f9668ce 100644
--- a/src/mvrxchange/mvrxchange_session.cpp
+++ b/src/mvrxchange/mvrxchange_session.cpp
@@ -39,9 +39,13 @@ void MVRxchangeSession::DoRead()
                     IMVRxchangeService::IMVRxchangeMessage out;
                     fReadMsg.ToExternalMessage(out);
 
+                    // The peer may be gone already
+                    boost::system::error_code endpointError;
+                    const tcp::endpoint endpoint = this->fSocket.remote_endpoint(endpointError);
+
                     TCPMessageInfo info {
-                        this->fSocket.remote_endpoint().port(),
-                        this->fSocket.remote_endpoint().address().to_string()
+                        endpoint.port(),
+                        endpoint.address().to_string()
                     };
                     IMVRxchangeService::IMVRxchangeMessage in = fImpl->TCP_OnIncommingMessage(out, info);
                     delete[] out.BufferToFile;
-- 
2.43.0


From 41571782c13faad0af3f4221f0d230ada5d38d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 57/92] fix: an answer without a valid MVR-xchange header is an
 error

---
 src/mvrxchange/mvrxchange_client.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_client.cpp b/src/mvrxchange/mvrxchange_client.cpp
index d043fb7..e4f953b 100644
--- a/src/mvrxchange/mvrxchange_client.cpp
+++ b/src/mvrxchange/mvrxchange_client.cpp
@@ -44,10 +44,14 @@ bool MVRxchangeClient::ReadMessage(SendResult& res, std::chrono::steady_clock::d
 
     res.success = !res.error.failed();
     
-    if(res.success)
+    if(res.success && !res.message.DecodeHeader())
     {
-        res.message.DecodeHeader();
+        res.error   = boost::asio::error::invalid_argument;
+        res.success = false;
+    }
 
+    if(res.success)
+    {
         boost::asio::async_read(fSocket,
         boost::asio::buffer(res.message.GetBody(), res.message.GetBodyLength()),
         [&](const boost::system::error_code& result_error,
-- 
2.43.0


From 36cf0858a99ce2f35e1273305c34256f992b8ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 58/92] fix: a MVR-xchange host that cannot be resolved is an
 error instead of an exception

---
 src/mvrxchange/mvrxchange_client.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mvrxchange/mvrxchange_client.cpp b/src/mvrxchange/mvrxchange_client.cpp
index e4f953b..97e76d6 100644
--- a/src/mvrxchange/mvrxchange_client.cpp
+++ b/src/mvrxchange/mvrxchange_client.cpp
@@ -128,7 +128,11 @@ void MVRxchangeClient::Run(std::chrono::steady_clock::duration timeout)
 bool MVRxchangeClient::Connect(SendResult& res, const std::string& host, const std::string& service, std::chrono::steady_clock::duration timeout)
 {
     // Resolve the host name and service to a list of endpoints.
-    auto endpoints = tcp::resolver(fio_context).resolve(host, service);
+    auto endpoints = tcp::resolver(fio_context).resolve(host, service, res.error);
+    if(res.error.failed())
+    {
+        return res.success = false;
+    }
 
     // Start the asynchronous operation itself. The lambda that is used as a
     // callback will update the error variable when the operation completes.
-- 
2.43.0


From cb751a5fd7e4f40bd82fc42bfc61cdcce22029ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 59/92] fix: the sessions of the MVR-xchange server are locked

---
 src/mvrxchange/mvrxchange_server.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_server.cpp b/src/mvrxchange/mvrxchange_server.cpp
index e51ff8b..5d25194 100644
--- a/src/mvrxchange/mvrxchange_server.cpp
+++ b/src/mvrxchange/mvrxchange_server.cpp
@@ -60,13 +60,13 @@ void MVRxchangeServer::ExecutionFunction()
 
 void MVRxchangeServer::AddSession(const std::shared_ptr<MVRxchangeSession>& p) 
 {
-    std::unique_lock<std::mutex> mSession;
+    std::unique_lock<std::mutex> lock(mSession);
     fSession.insert(p);
 }
 
 void MVRxchangeServer::CloseSession(const std::shared_ptr<MVRxchangeSession>& p) 
 {
-    std::unique_lock<std::mutex> mSession;
+    std::unique_lock<std::mutex> lock(mSession);
     fSession.erase(p);
 }
 
-- 
2.43.0


From 5b1ab60d9f6d71eb25a066db132aea8647b130f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 60/92] fix: mDNS TXT records that are empty or have an entry
 without value are read to their end

---
 src/mvrxchange/CMVRxchangeService.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 84235cd..ef5ee37 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -572,10 +572,13 @@ void CMVRxchangeServiceImpl::mDNS_Client_Task()
 		TXString uuid;
 
 		size_t ptr = 0;
-		do{
+		while(ptr < r.txt.size())
+		{
 			uint8_t len = r.txt[ptr];
 
 			std::string t = r.txt.substr(ptr + 1, len);
+			ptr += len + 1;
+
 			size_t eqIdx = t.find('=');
 			if(eqIdx == std::string::npos)
 			{
@@ -590,12 +593,10 @@ void CMVRxchangeServiceImpl::mDNS_Client_Task()
 			{
 				uuid = t.substr(eqIdx + 1);
 			}
-
-			ptr += len + 1;
-		}while(ptr < r.txt.size());
+		}
 
 		SceneData::GdtfConverter::ConvertUUID(uuid, localServ.StationUUID);
-		strcpy(localServ.StationName, name.GetCharPtr());
+		localServ.StationName = name.GetCharPtr();
 
 		#ifndef NDEBUG
 			std::string out;
-- 
2.43.0


From 9e82ba46a475af0b274b7b86024783482b485d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 61/92] fix: QueryLocalServices waits for the end of its query,
 whenever that is

---
 src/mvrxchange/CMVRxchangeService.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index ef5ee37..7ae92d2 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -152,14 +152,12 @@ VCOMError VCOM_CALLTYPE  CMVRxchangeServiceImpl::QueryLocalServices(size_t& out_
 
 	if(fmdns_Thread.joinable())
 	{
-		std::condition_variable cv;
-		std::mutex mut;
-		std::unique_lock<std::mutex> lock(mut);
-		boost::asio::post(fmdns_IO_Context, [this, &cv](){
+		auto done = std::make_shared<std::promise<void>>();
+		boost::asio::post(fmdns_IO_Context, [this, done](){
 			this->mDNS_Client_Task();
-			cv.notify_all();
+			done->set_value();
 		});
-		cv.wait(lock);
+		done->get_future().wait();
 	}else{
 		this->mDNS_Client_Task();
 	}
-- 
2.43.0


From b9f4366a2a398adabadcba1b3b84618d74168992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 62/92] fix: connecting to a service again does not query mDNS
 without a pause

---
 src/mvrxchange/CMVRxchangeService.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 7ae92d2..1387851 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -444,7 +444,13 @@ void CMVRxchangeServiceImpl::mDNS_Client_Tick()
 	mDNS_Client_Task();
 
 	fmdns_long_timer.expires_from_now(boost::posix_time::seconds(45));
-	fmdns_long_timer.async_wait(boost::bind(&CMVRxchangeServiceImpl::mDNS_Client_Tick, this));
+	fmdns_long_timer.async_wait([this](const boost::system::error_code& error){
+		// A timer that was set again is called with an error, its successor will tick
+		if(!error)
+		{
+			this->mDNS_Client_Tick();
+		}
+	});
 }
 
 void CMVRxchangeServiceImpl::mDNS_Client_RFun()
-- 
2.43.0


From 3ba3bb5ee10341a55fa63a9832f65e6afca40f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 63/92] fix: the stop flag of the mDNS thread is initialised

---
 src/mvrxchange/CMVRxchangeService.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.h b/src/mvrxchange/CMVRxchangeService.h
index 982280e..62979a8 100644
--- a/src/mvrxchange/CMVRxchangeService.h
+++ b/src/mvrxchange/CMVRxchangeService.h
@@ -58,7 +58,7 @@ namespace VectorworksMVR
 		std::thread 									fmdns_Thread;
 		boost::asio::io_context 						fmdns_IO_Context;
 		boost::asio::deadline_timer						fmdns_long_timer;
-		std::atomic<bool>								fmdns_stop_flag;
+		std::atomic<bool>								fmdns_stop_flag{false};
 
 		std::mutex 										fQueryLocalServicesResult_mtx;
 		std::vector<ConnectToLocalServiceArgs> 			fQueryLocalServicesResult;
-- 
2.43.0


From 1a604f6351d2a20f5184e926e19efbef5bd189de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 64/92] fix: an mDNS name that refers to itself is not followed
 for ever, and none is read behind the packet

---
 mdns_cpp/src/mdns.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mdns_cpp/src/mdns.h b/mdns_cpp/src/mdns.h
index e0af574..8ee86a2 100644
--- a/mdns_cpp/src/mdns.h
+++ b/mdns_cpp/src/mdns.h
@@ -38,6 +38,9 @@ extern "C" {
 
 #define MDNS_INVALID_POS ((size_t)-1)
 
+// More substrings or references in a name are not followed
+#define MDNS_MAX_SUBSTRINGS 64
+
 #define MDNS_STRING_CONST(s) (s), (sizeof((s)) - 1)
 #define MDNS_STRING_FORMAT(s) (int)((s).length), s.str
 #define MDNS_STRING_FORMAT_STD(s) std::string(s.str, s.length)
@@ -407,11 +410,14 @@ static mdns_string_pair_t
 mdns_get_next_substring(const void* rawdata, size_t size, size_t offset) {
 	const uint8_t* buffer = (const uint8_t*)rawdata;
 	mdns_string_pair_t pair = {MDNS_INVALID_POS, 0, 0};
+	if (offset >= size)
+		return pair;
 	if (!buffer[offset]) {
 		pair.offset = offset;
 		return pair;
 	}
-	if (mdns_is_string_ref(buffer[offset])) {
+	int recursion = 0;
+	while (mdns_is_string_ref(buffer[offset])) {
 		if (size < offset + 2)
 			return pair;
 
@@ -420,6 +426,8 @@ mdns_get_next_substring(const void* rawdata, size_t size, size_t offset) {
 			return pair;
 
 		pair.ref = 1;
+		if (++recursion > MDNS_MAX_SUBSTRINGS)
+			return pair;
 	}
 
 	size_t length = (size_t)buffer[offset++];
@@ -436,9 +444,10 @@ static int
 mdns_string_skip(const void* buffer, size_t size, size_t* offset) {
 	size_t cur = *offset;
 	mdns_string_pair_t substr;
+	int counter = 0;
 	do {
 		substr = mdns_get_next_substring(buffer, size, cur);
-		if (substr.offset == MDNS_INVALID_POS)
+		if ((substr.offset == MDNS_INVALID_POS) || (counter++ > MDNS_MAX_SUBSTRINGS))
 			return 0;
 		if (substr.ref) {
 			*offset = cur + 2;
@@ -460,10 +469,12 @@ mdns_string_equal(const void* buffer_lhs, size_t size_lhs, size_t* ofs_lhs, cons
 	size_t rhs_end = MDNS_INVALID_POS;
 	mdns_string_pair_t lhs_substr;
 	mdns_string_pair_t rhs_substr;
+	int counter = 0;
 	do {
 		lhs_substr = mdns_get_next_substring(buffer_lhs, size_lhs, lhs_cur);
 		rhs_substr = mdns_get_next_substring(buffer_rhs, size_rhs, rhs_cur);
-		if ((lhs_substr.offset == MDNS_INVALID_POS) || (rhs_substr.offset == MDNS_INVALID_POS))
+		if ((lhs_substr.offset == MDNS_INVALID_POS) || (rhs_substr.offset == MDNS_INVALID_POS) ||
+		    (counter++ > MDNS_MAX_SUBSTRINGS))
 			return 0;
 		if (lhs_substr.length != rhs_substr.length)
 			return 0;
@@ -499,9 +510,10 @@ mdns_string_extract(const void* buffer, size_t size, size_t* offset, char* str,
 	result.length = 0;
 	char* dst = str;
 	size_t remain = capacity;
+	int counter = 0;
 	do {
 		substr = mdns_get_next_substring(buffer, size, cur);
-		if (substr.offset == MDNS_INVALID_POS)
+		if ((substr.offset == MDNS_INVALID_POS) || (counter++ > MDNS_MAX_SUBSTRINGS))
 			return result;
 		if (substr.ref && (end == MDNS_INVALID_POS))
 			end = cur + 2;
-- 
2.43.0


From a4dc9dac98092e4909aa5f0393ee3c738bca249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:08 +0000
Subject: [PATCH 65/92] fix: mDNS packets are not read behind their end

---
 mdns_cpp/src/mdns.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mdns_cpp/src/mdns.h b/mdns_cpp/src/mdns.h
index 8ee86a2..a9fd658 100644
--- a/mdns_cpp/src/mdns.h
+++ b/mdns_cpp/src/mdns.h
@@ -612,7 +612,8 @@ mdns_records_parse(int sock, const struct sockaddr* from, size_t addrlen, const
 	int do_callback = (callback ? 1 : 0);
 	for (size_t i = 0; i < records; ++i) {
 		size_t name_offset = *offset;
-		mdns_string_skip(buffer, size, offset);
+		if (!mdns_string_skip(buffer, size, offset) || ((*offset) + 10 > size))
+			return parsed;
 		size_t name_length = (*offset) - name_offset;
 		const uint16_t* data = (const uint16_t*)((const char*)buffer + (*offset));
 
@@ -624,7 +625,7 @@ mdns_records_parse(int sock, const struct sockaddr* from, size_t addrlen, const
 
 		*offset += 10;
 
-		if (do_callback) {
+		if (do_callback && (length <= (size - (*offset)))) {
 			++parsed;
 			if (callback(sock, from, addrlen, type, query_id, rtype, rclass, ttl, buffer, size,
 			             name_offset, name_length, *offset, length, user_data))
@@ -716,7 +717,7 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 	saddr->sa_len = sizeof(addr);
 #endif
 	int ret = recvfrom(sock, (char*)buffer, (mdns_size_t)capacity, 0, saddr, &addrlen);
-	if (ret <= 0)
+	if (ret < (int)sizeof(struct mdns_header_t))
 		return 0;
 
 	size_t data_size = (size_t)ret;
@@ -747,7 +748,8 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 		size_t verify_ofs = 12;
 		// Verify it's our question, _services._dns-sd._udp.local.
 		if (!mdns_string_equal(buffer, data_size, &ofs, mdns_services_query,
-		                       sizeof(mdns_services_query), &verify_ofs))
+		                       sizeof(mdns_services_query), &verify_ofs) ||
+		    (ofs + 4 > data_size))
 			return 0;
 		data = (uint16_t*)((char*)buffer + ofs);
 
@@ -767,6 +769,10 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 		size_t name_offset = ofs;
 		int is_answer = mdns_string_equal(buffer, data_size, &ofs, mdns_services_query,
 		                                  sizeof(mdns_services_query), &verify_ofs);
+		if (!is_answer && !mdns_string_skip(buffer, data_size, &ofs))
+			return records;
+		if (ofs + 10 > data_size)
+			return records;
 		size_t name_length = ofs - name_offset;
 		data = (uint16_t*)((char*)buffer + ofs);
 
@@ -775,7 +781,7 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 		uint32_t ttl = ntohl(*(uint32_t*)(void*)data);
 		data += 2;
 		uint16_t length = ntohs(*data++);
-		if (length >= (data_size - ofs))
+		if (length > (data_size - (ofs + 10)))
 			return 0;
 
 		if (is_answer && do_callback) {
@@ -810,7 +816,7 @@ mdns_socket_listen(int sock, void* buffer, size_t capacity, mdns_record_callback
 	saddr->sa_len = sizeof(addr);
 #endif
 	int ret = recvfrom(sock, (char*)buffer, (mdns_size_t)capacity, 0, saddr, &addrlen);
-	if (ret <= 0)
+	if (ret < (int)sizeof(struct mdns_header_t))
 		return 0;
 
 	size_t data_size = (size_t)ret;
@@ -841,6 +847,8 @@ mdns_socket_listen(int sock, void* buffer, size_t capacity, mdns_record_callback
 			if (!mdns_string_skip(buffer, data_size, &offset))
 				break;
 		}
+		if (offset + 4 > data_size)
+			break;
 		size_t length = offset - question_offset;
 		data = (uint16_t*)((char*)buffer + offset);
 
@@ -959,7 +967,7 @@ mdns_query_recv(int sock, void* buffer, size_t capacity, mdns_record_callback_fn
 	saddr->sa_len = sizeof(addr);
 #endif
 	int ret = recvfrom(sock, (char*)buffer, (mdns_size_t)capacity, 0, saddr, &addrlen);
-	if (ret <= 0)
+	if (ret < (int)sizeof(struct mdns_header_t))
 		return 0;
 
 	size_t data_size = (size_t)ret;
@@ -983,7 +991,7 @@ mdns_query_recv(int sock, void* buffer, size_t capacity, mdns_record_callback_fn
 	int i;
 	for (i = 0; i < questions; ++i) {
 		size_t ofs = (size_t)((char*)data - (char*)buffer);
-		if (!mdns_string_skip(buffer, data_size, &ofs))
+		if (!mdns_string_skip(buffer, data_size, &ofs) || (ofs + 4 > data_size))
 			return 0;
 		data = (uint16_t*)((char*)buffer + ofs);
 		uint16_t rtype = ntohs(*data++);
-- 
2.43.0


From 2c9d8f75f919d6bf0f622d325add066e6b2fb526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 66/92] fix: an mDNS host name that does not fit in the answer
 does not crash

---
 mdns_cpp/src/mdns.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdns_cpp/src/mdns.h b/mdns_cpp/src/mdns.h
index a9fd658..3d0a49d 100644
--- a/mdns_cpp/src/mdns.h
+++ b/mdns_cpp/src/mdns.h
@@ -598,8 +598,10 @@ static void*
 mdns_string_make_with_ref(void* data, size_t capacity, const char* name, size_t length,
                           size_t ref_offset) {
 	void* remaindata = mdns_string_make(data, capacity, name, length);
+	if (!remaindata)
+		return 0;
 	capacity -= MDNS_POINTER_DIFF(remaindata, data);
-	if (!data || !capacity)
+	if (!capacity)
 		return 0;
 	return mdns_string_make_ref(MDNS_POINTER_OFFSET(remaindata, -1), capacity + 1, ref_offset);
 }
-- 
2.43.0


From e3f809e2f5b5dd87e3880efb169af4fd1c02f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:26 +0000
Subject: [PATCH 67/92] fix: the mDNS discovery has a place for the answers it
 gets

---
 mdns_cpp/src/mdns.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdns_cpp/src/mdns.cpp b/mdns_cpp/src/mdns.cpp
index 2126d5f..12818c3 100644
--- a/mdns_cpp/src/mdns.cpp
+++ b/mdns_cpp/src/mdns.cpp
@@ -636,7 +636,8 @@ void mDNS::executeDiscovery() {
 
   size_t capacity = 2048;
   void *buffer = malloc(capacity);
-  void *user_data = 0;
+  unsorted_query_t queryRes;
+  void *user_data = &queryRes;
 
   // This is a simple implementation that loops for 5 seconds or as long as we get replies
   // max reply duration is set to 20 (15 + 5) sec
-- 
2.43.0


From c43114f2859674f4991899c866cb4d7010db1179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 68/92] fix: the mDNS responder does not answer the questions
 that responses repeat

---
 mdns_cpp/src/mdns.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdns_cpp/src/mdns.h b/mdns_cpp/src/mdns.h
index 3d0a49d..8da9bf5 100644
--- a/mdns_cpp/src/mdns.h
+++ b/mdns_cpp/src/mdns.h
@@ -835,6 +835,10 @@ mdns_socket_listen(int sock, void* buffer, size_t capacity, mdns_record_callback
 	*/
 	data += 3;
 
+	// Only questions of queries are answered, those that a response repeats are not
+	if (flags & 0x8000U)
+		return 0;
+
 	size_t parsed = 0;
 	for (int iquestion = 0; iquestion < questions; ++iquestion) {
 		size_t question_offset = (size_t)((char*)data - (char*)buffer);
-- 
2.43.0


From c9557792fdc2772bd2013c2be765e808c829274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 69/92] fix: a service that was found keeps its own TXT record,
 beside others of the same host

---
 mdns_cpp/include/mdns_cpp/mdns.hpp |  4 +++-
 mdns_cpp/src/mdns.cpp              | 23 ++++++++++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/mdns_cpp/include/mdns_cpp/mdns.hpp b/mdns_cpp/include/mdns_cpp/mdns.hpp
index 90c3f65..419325e 100644
--- a/mdns_cpp/include/mdns_cpp/mdns.hpp
+++ b/mdns_cpp/include/mdns_cpp/mdns.hpp
@@ -35,9 +35,10 @@ struct unsorted_query_part_t {
   std::string addr;
   std::string canonicalName;
   T data;
+  size_t packet = 0; // number of the packet this was in
 
   unsorted_query_part_t() = default;
-  unsorted_query_part_t(const std::string& addr, const std::string& canonicalName, const T& data): addr(addr), canonicalName(canonicalName), data(data) {};
+  unsorted_query_part_t(const std::string& addr, const std::string& canonicalName, const T& data, size_t packet): addr(addr), canonicalName(canonicalName), data(data), packet(packet) {};
 
   bool operator==(const unsorted_query_part_t<T>& o) const{return addr == o.addr && canonicalName == o.canonicalName && data == o.data;};
 };
@@ -57,6 +58,7 @@ struct unsorted_query_t {
   std::vector<unsorted_query_part_t<std::string>> aRecords;
   std::vector<unsorted_query_part_t<std::string>> aaaaRecords;
   std::vector<unsorted_query_part_t<std::string>> ptrRecords;
+  size_t packets = 0; // number of packets received
 };
 
 using QueryResList = std::vector<Query_result>;
diff --git a/mdns_cpp/src/mdns.cpp b/mdns_cpp/src/mdns.cpp
index 12818c3..a2bde0a 100644
--- a/mdns_cpp/src/mdns.cpp
+++ b/mdns_cpp/src/mdns.cpp
@@ -255,7 +255,7 @@ static int query_callback(int sock, const struct sockaddr *from, size_t addrlen,
   if (rtype == MDNS_RECORDTYPE_PTR) 
   {
     mdns_string_t namestr = mdns_record_parse_ptr(data, size, record_offset, record_length, namebuffer, sizeof(namebuffer));
-    queryRes.ptrRecords.emplace_back(fromaddrstr, canonicalName, MDNS_STRING_FORMAT_STD(namestr));
+    queryRes.ptrRecords.emplace_back(fromaddrstr, canonicalName, MDNS_STRING_FORMAT_STD(namestr), queryRes.packets);
   }
 
   if (rtype == MDNS_RECORDTYPE_SRV) 
@@ -265,26 +265,26 @@ static int query_callback(int sock, const struct sockaddr *from, size_t addrlen,
     queryRes.srvRecords.emplace_back(fromaddrstr, canonicalName, srv_record_t{
       srv.port,
       MDNS_STRING_FORMAT_STD(srv.name)
-    });
+    }, queryRes.packets);
   } 
   else if (rtype == MDNS_RECORDTYPE_A) 
   {
     struct sockaddr_in addr;
     mdns_record_parse_a(data, size, record_offset, record_length, &addr);
     std::string ip = ipv4AddressToString(namebuffer, sizeof(namebuffer), &addr, sizeof(addr));
-    queryRes.aRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip));
+    queryRes.aRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip), queryRes.packets);
   } 
   else if (rtype == MDNS_RECORDTYPE_AAAA) 
   {
     struct sockaddr_in6 addr;
     mdns_record_parse_aaaa(data, size, record_offset, record_length, &addr);
     std::string ip = ipv6AddressToString(namebuffer, sizeof(namebuffer), &addr, sizeof(addr));
-    queryRes.aaaaRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip));
+    queryRes.aaaaRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip), queryRes.packets);
   } 
   else if (rtype == MDNS_RECORDTYPE_TXT) 
   {
     std::string txtString((const char*)data + record_offset, record_length);
-    queryRes.txtRecords.emplace_back(fromaddrstr, canonicalName, std::move(txtString));
+    queryRes.txtRecords.emplace_back(fromaddrstr, canonicalName, std::move(txtString), queryRes.packets);
   }
 
 
@@ -526,6 +526,7 @@ QueryResList mDNS::executeQuery2(const std::string &service) {
       if (res > 0) {
         for (int isock = 0; isock < num_sockets; ++isock) {
           if (FD_ISSET(sockets[isock], &readfs)) {
+            ++queryRes.packets;
             mdns_query_recv(sockets[isock], buffer, capacity, query_callback, user_data, query_id[isock]);
           }
         }
@@ -581,11 +582,19 @@ QueryResList mDNS::executeQuery2(const std::string &service) {
     outItem.mdnsAddress = it->addr;
     outItem.port = it->data.port;
 
+    // Services of the same host have similar or even equal names, so prefer the record
+    // of the same name, and among these the one that came with the service
+    int txtRank = 0;
     for(auto& t : queryRes.txtRecords)
     {
       if(testQueryPart(t, *it)){
-        outItem.txt = t.data;
-        break;
+        const bool sameName = t.canonicalName == it->canonicalName;
+        const int  rank     = !sameName ? 1 : t.packet != it->packet ? 2 : 3;
+
+        if(rank > txtRank){
+          outItem.txt = t.data;
+          txtRank     = rank;
+        }
       }
     }
 
-- 
2.43.0


From 4633c80446c5af3f4a970c14b970398344d707c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 70/92] fix: stations are announced on interfaces whose address
 ends with 127, and not on loopback ones

---
 src/mvrxchange/CMVRxchangeService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 1387851..b9e3316 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -73,7 +73,7 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 		// Bitmasking IP Address to check if it is 127.x.x.x
 		// We dont want to start the mDNS Server on loopback addresses
 		// If two programs on the same device want to connect, they can use one of the other interfaces as well
-		if((e.second & 4278190080) == 2130706432) {
+		if((ntohl(e.second) & 4278190080) == 2130706432) {
 			continue;
 		}
 	
-- 
2.43.0


From 763f9dfe548531d0ed0cba29890076da4de62d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 71/92] fix: a station that left its service sends nothing to
 the group any more

---
 src/mvrxchange/CMVRxchangeService.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index b9e3316..c851209 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -136,6 +136,12 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::LeaveLocalService()
 	this->Send_message(leaveMessage);
 	mDNS_Client_Stop();
 
+	{
+		// The session with the group ends here
+		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+		fMVRGroup.clear();
+	}
+
     for(auto& s : fmdns)
     {
         s->stopService();
-- 
2.43.0


From 7736ac5277e355a33dd2a53ba8a5f7a1fb5fbeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 72/92] fix: connecting again looks for the members of the
 group again

---
 src/mvrxchange/CMVRxchangeService.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index c851209..fd632bb 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -128,6 +128,13 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 
 VCOMError VectorworksMVR::CMVRxchangeServiceImpl::LeaveLocalService()
 {
+	if(fServer)
+	{
+		// What was found while connected is out of date when connecting again
+		std::lock_guard<std::mutex> lock(fQueryLocalServicesResult_mtx);
+		fIsInitialized = false;
+	}
+
 	this->TCP_Stop();
     
 	SendMessageArgs leaveMessage;
-- 
2.43.0


From 2d2e8e6ded1ac382e8eeb630b959fd264e87a42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 73/92] fix: a station that joins again is reached at its new
 address, and once

---
 src/mvrxchange/CMVRxchangeService.cpp | 68 +++++++++++++++++----------
 src/mvrxchange/CMVRxchangeService.h   |  2 +
 2 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index fd632bb..d6f1378 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -147,6 +147,7 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::LeaveLocalService()
 		// The session with the group ends here
 		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
 		fMVRGroup.clear();
+		fJoinedStations.clear();
 	}
 
     for(auto& s : fmdns)
@@ -316,41 +317,38 @@ IMVRxchangeService::IMVRxchangeMessage CMVRxchangeServiceImpl::TCP_OnIncommingMe
     
     if(in.Type == MVRxchangeMessageType::MVR_JOIN)
     {
-
-		MVRxchangeGroupMember newItem;
-		if(GetSingleMemberOfService(in.JOIN.StationUUID, newItem) == kVCOMError_NoError)
+		const MvrUUID uuid = in.JOIN.StationUUID;
 		{
 			std::lock_guard<std::mutex> lock(fMvrGroupMutex);
-			// In case Station sent message twice (e.g. to change their name)
-			auto it = std::find_if(fMVRGroup.begin(), fMVRGroup.end(), [&newItem](const MVRxchangeGroupMember& it){
-				return it.IP == newItem.IP && it.Port == newItem.Port;
-			});
-			
-			if(it != fMVRGroup.end())
-			{
-				*it = newItem; // changed name
-			}else
+			if(std::find(fJoinedStations.begin(), fJoinedStations.end(), uuid) == fJoinedStations.end())
 			{
-				fMVRGroup.push_back(newItem);
+				fJoinedStations.push_back(uuid);
 			}
 		}
-		else
+
+		MVRxchangeGroupMember newItem;
+		if(GetSingleMemberOfService(uuid, newItem) == kVCOMError_NoError)
 		{
-			auto& uuid = in.JOIN.StationUUID;
-			boost::asio::post(fmdns_IO_Context, [this, uuid](){
-				this->mDNS_Client_Task(); // Run, in case client was faster than task
-				MVRxchangeGroupMember newItem;
-				if(GetSingleMemberOfService(uuid, newItem) == kVCOMError_NoError)
-				{
-					std::lock_guard<std::mutex> lock(fMvrGroupMutex);
-					fMVRGroup.push_back(newItem);
-				}
-			});
+			AddJoinedMember(newItem);
 		}
+
+		// Run, in case client was faster than task, or has another address than the last time
+		boost::asio::post(fmdns_IO_Context, [this, uuid](){
+			this->mDNS_Client_Task();
+			MVRxchangeGroupMember newItem;
+			if(GetSingleMemberOfService(uuid, newItem) == kVCOMError_NoError)
+			{
+				AddJoinedMember(newItem);
+			}
+		});
     }
 	else if(in.Type == MVRxchangeMessageType::MVR_LEAVE)
 	{
 		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+		fJoinedStations.erase(
+			std::remove(fJoinedStations.begin(), fJoinedStations.end(), in.LEAVE.FromStationUUID),
+			fJoinedStations.end()
+		);
 		fMVRGroup.erase(
 			std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&in](const MVRxchangeGroupMember& it){
 				return it.stationUUID == in.LEAVE.FromStationUUID;
@@ -427,6 +425,28 @@ std::vector<MVRxchangeGroupMember> CMVRxchangeServiceImpl::GetMembersOfService(c
 	return list;
 }
 
+void CMVRxchangeServiceImpl::AddJoinedMember(const MVRxchangeGroupMember& newItem)
+{
+	std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+	if(std::find(fJoinedStations.begin(), fJoinedStations.end(), newItem.stationUUID) == fJoinedStations.end())
+	{
+		return; // it left in the meantime
+	}
+
+	// In case Station sent message twice (e.g. to change their name) or has another address now
+	auto it = std::find_if(fMVRGroup.begin(), fMVRGroup.end(), [&newItem](const MVRxchangeGroupMember& it){
+		return it.stationUUID == newItem.stationUUID || (it.IP == newItem.IP && it.Port == newItem.Port);
+	});
+
+	if(it != fMVRGroup.end())
+	{
+		*it = newItem;
+	}else
+	{
+		fMVRGroup.push_back(newItem);
+	}
+}
+
 VCOMError CMVRxchangeServiceImpl::GetSingleMemberOfService(const MvrUUID& stationUUID, MVRxchangeGroupMember& out){
 	std::lock_guard<std::mutex> lock (fQueryLocalServicesResult_mtx);
 
diff --git a/src/mvrxchange/CMVRxchangeService.h b/src/mvrxchange/CMVRxchangeService.h
index 62979a8..ed87bda 100644
--- a/src/mvrxchange/CMVRxchangeService.h
+++ b/src/mvrxchange/CMVRxchangeService.h
@@ -76,6 +76,8 @@ namespace VectorworksMVR
 		std::mutex fMvrGroupMutex;
 		std::vector<MVRxchangeGroupMember>			fMVRGroup;
 	private:
+		std::vector<MvrUUID>						fJoinedStations;	// stations that sent a JOIN (also guarded by fMvrGroupMutex)
+		void AddJoinedMember(const MVRxchangeGroupMember& newItem);
 
 		OnMessageArgs  fCallBack;
 		//---------------------------------------------------------------------------
-- 
2.43.0


From fed0873d62f3203b583bc1c5628fddba07189a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 74/92] fix: the running flag of the mDNS responder is atomic,
 two threads use it

---
 mdns_cpp/include/mdns_cpp/mdns.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdns_cpp/include/mdns_cpp/mdns.hpp b/mdns_cpp/include/mdns_cpp/mdns.hpp
index 419325e..776fd80 100644
--- a/mdns_cpp/include/mdns_cpp/mdns.hpp
+++ b/mdns_cpp/include/mdns_cpp/mdns.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <string>
 #include <thread>
@@ -100,7 +101,7 @@ class mDNS {
   std::uint16_t port_{42424};
   std::string txt_record_{};
 
-  bool running_{false};
+  std::atomic<bool> running_{false};
 
   bool has_ipv4_{false};
   bool has_ipv6_{false};
-- 
2.43.0


From 8276b82aba3ff5a0675dd9364972c69fe732b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:17 +0000
Subject: [PATCH 75/92] fix: a station that connects uses what is announced
 now, not what it found before

---
 src/mvrxchange/CMVRxchangeService.cpp | 20 ++------------------
 src/mvrxchange/CMVRxchangeService.h   |  1 -
 2 files changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index d6f1378..ab5e53c 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -87,16 +87,8 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 		fmdns.emplace_back(s);	// Pointer is now managed by the unique ptr and deleted upon fmdns going out of scope
 	}
 
-	bool doInit = false; // avoid deadlock with temp variable
-	{
-		std::lock_guard<std::mutex> lock(fQueryLocalServicesResult_mtx);
-		doInit = !fIsInitialized;
-	}
-
-	if(doInit)
-	{
-		this->mDNS_Client_Task();
-	}
+	// What was found before (e.g. to choose the service) is out of date, stations have left or joined since
+	this->mDNS_Client_Task();
 
 	{
 		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
@@ -128,13 +120,6 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 
 VCOMError VectorworksMVR::CMVRxchangeServiceImpl::LeaveLocalService()
 {
-	if(fServer)
-	{
-		// What was found while connected is out of date when connecting again
-		std::lock_guard<std::mutex> lock(fQueryLocalServicesResult_mtx);
-		fIsInitialized = false;
-	}
-
 	this->TCP_Stop();
     
 	SendMessageArgs leaveMessage;
@@ -651,7 +636,6 @@ void CMVRxchangeServiceImpl::mDNS_Client_Task()
 	{
 		std::lock_guard<std::mutex> lock (fQueryLocalServicesResult_mtx);
 		fQueryLocalServicesResult = result;
-		fIsInitialized = true;
 	}
 
 }
diff --git a/src/mvrxchange/CMVRxchangeService.h b/src/mvrxchange/CMVRxchangeService.h
index ed87bda..9871ac2 100644
--- a/src/mvrxchange/CMVRxchangeService.h
+++ b/src/mvrxchange/CMVRxchangeService.h
@@ -62,7 +62,6 @@ namespace VectorworksMVR
 
 		std::mutex 										fQueryLocalServicesResult_mtx;
 		std::vector<ConnectToLocalServiceArgs> 			fQueryLocalServicesResult;
-		bool											fIsInitialized = false;
 
 		MVRxchangeNetwork::MVRxchangeServer*			fServer;
 		ConnectToLocalServiceArgs						fCurrentService;
-- 
2.43.0


From 2ff1a1cf901b02afa8d3998f392936cababf08a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 76/92] fix: a station found at two addresses while it joins
 again is one member of the group

---
 src/mvrxchange/CMVRxchangeService.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index ab5e53c..bfa6ea4 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -419,17 +419,14 @@ void CMVRxchangeServiceImpl::AddJoinedMember(const MVRxchangeGroupMember& newIte
 	}
 
 	// In case Station sent message twice (e.g. to change their name) or has another address now
-	auto it = std::find_if(fMVRGroup.begin(), fMVRGroup.end(), [&newItem](const MVRxchangeGroupMember& it){
-		return it.stationUUID == newItem.stationUUID || (it.IP == newItem.IP && it.Port == newItem.Port);
-	});
-
-	if(it != fMVRGroup.end())
-	{
-		*it = newItem;
-	}else
-	{
-		fMVRGroup.push_back(newItem);
-	}
+	// (both addresses can be in the group, when it was found while it changed them)
+	fMVRGroup.erase(
+		std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&newItem](const MVRxchangeGroupMember& it){
+			return it.stationUUID == newItem.stationUUID || (it.IP == newItem.IP && it.Port == newItem.Port);
+		}),
+		fMVRGroup.end()
+	);
+	fMVRGroup.push_back(newItem);
 }
 
 VCOMError CMVRxchangeServiceImpl::GetSingleMemberOfService(const MvrUUID& stationUUID, MVRxchangeGroupMember& out){
-- 
2.43.0


From 3f3c396af57178a190ce205a4701b0fd42dd1f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:41 +0000
Subject: [PATCH 77/92] fix: fixtures that are read in two threads report their
 own errors

---
 src/GDTFManager.cpp | 2 +-
 src/GDTFManager.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index d747303..38b4045 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -7839,7 +7839,7 @@ double GdtfMeasurementPoint::GetEnergy()
 
 //------------------------------------------------------------------------------------
 // GdtfFixture
-TGdtfParsingErrorArray* GdtfFixture::__ERROR_CONTAINER_POINTER = nullptr;
+thread_local TGdtfParsingErrorArray* GdtfFixture::__ERROR_CONTAINER_POINTER = nullptr;
 
 void GdtfFixture::ImportFromFile(IFileIdentifierPtr inZipFile, const TXString& folder)
 {
diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index 007d129..d852afb 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -2870,7 +2870,7 @@ namespace SceneData
 		bool                                                  fUseIndexes = false;
 
 	public:
-		static TGdtfParsingErrorArray*			__ERROR_CONTAINER_POINTER;
+		static thread_local TGdtfParsingErrorArray*	__ERROR_CONTAINER_POINTER;
         static void								AddError(const GdtfParsingError& error);
         TGdtfParsingErrorArray&					GetParsingErrorArray();
         
-- 
2.43.0


From 3f654db0840349753e9a65921eee97b9fde379a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:20 +0000
Subject: [PATCH 78/92] fix: entries of an archive carry a valid date on every
 day, and threads do not share it

---
 src/Wrapper/ZIPFileImpl.cpp | 92 ++++---------------------------------
 1 file changed, 10 insertions(+), 82 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 8059d53..84d1aa6 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -26,11 +26,7 @@ using namespace VectorworksMVR::Filing;
 
 /*static*/ VCOMError	CZIPFileImpl::fLastError;
 
-#if GS_MAC
-	const Sint32 kYearOffset = 76;
-#else
-	const Sint32 kYearOffset = 10;
-#endif
+const Sint32 kYearOffset = 80;	// the years of the archive begin with 1980, those of std::tm with 1900
 
 #define	SETUP_CBP		gCBP = fCBP;
 
@@ -1331,82 +1327,14 @@ void CZIPFileImpl::GetZipArchiveInfo( SZIPArchiveInfo* zipArchiveInfo )
 
 void CZIPFileImpl::GetDosDateAndTime( Uint16& dosDate, Uint16& dosTime )
 {
-	const Sint32 kYearInSeconds = 365 * 24 * 60 * 60;
-	const Sint32 kDayInSeconds = 24 * 60 * 60;
-	const Sint32 kHourInSeconds = 60 * 60;
-	const Sint32 kMinuteInSeconds = 60;
-
-	Sint32 year, month, day, hour, minute, second, dayNumber;
-	Sint32 time = GetTimeStamp();
-	year	= time / kYearInSeconds;
-	dayNumber		= ( time - year * kYearInSeconds - ( year / 4 ) * kDayInSeconds ) / kDayInSeconds; // add leap years' days
-	if ( dayNumber <= 31 )
-	{
-		day = dayNumber;
-		month = 0;
-	}
-	else if ( dayNumber <= 59 )
-	{
-		day = dayNumber - 31;
-		month = 1;
-	}
-	else if ( dayNumber <= 90 )
-	{
-		day = dayNumber - 59;
-		month = 2;
-	}
-	else if ( dayNumber <= 120 )
-	{
-		day = dayNumber - 90;
-		month = 3;
-	}
-	else if ( dayNumber <= 151 )
-	{
-		day = dayNumber - 120;
-		month = 4;
-	}
-	else if ( dayNumber <= 181 )
-	{
-		day = dayNumber - 151;
-		month = 5;
-	}
-	else if ( dayNumber <= 212 )
-	{
-		day = dayNumber - 181;
-		month = 6;
-	}
-	else if ( dayNumber <= 243 )
-	{
-		day = dayNumber - 212;
-		month = 7;
-	}
-	else if ( dayNumber <= 273 )
-	{
-		day = dayNumber - 243;
-		month = 8;
-	}
-	else if ( dayNumber <= 304 )
-	{
-		day = dayNumber - 273;
-		month = 9;
-	}
-	else if ( dayNumber <= 334 )
-	{
-		day = dayNumber - 304;
-		month = 10;
-	}
-	else 
-	{
-		day = dayNumber - 334;
-		month = 11;
-	}
-	
-	hour = ( time - year * kYearInSeconds - ( ( year / 4 ) + dayNumber) * kDayInSeconds ) / kHourInSeconds;
-	minute = ( time - year * kYearInSeconds - ( ( year / 4 ) + dayNumber ) * kDayInSeconds - hour * kHourInSeconds ) / kMinuteInSeconds;
-	second = ( time - year * kYearInSeconds - ( ( year / 4 ) + dayNumber ) * kDayInSeconds - hour * kHourInSeconds - minute * kMinuteInSeconds );
-	month++; day++; second++;
-
-	dosTime = (Uint16)( second&31 ); dosTime += (Uint16)( (minute&63) << 5); dosTime += (Uint16)( (hour&31) << 11);
-	dosDate = (Uint16)( day&31 ); dosDate += (Uint16)( (month&15) << 5); dosDate += (Uint16)(( (year - kYearOffset )&127 ) << 9);
+	const std::time_t now = std::time(nullptr);
+	std::tm local = {};
+#if defined(_WINDOWS) || defined(_WIN32)
+	localtime_s( &local, &now );
+#else
+	localtime_r( &now, &local );	// std::localtime has one result for all threads
+#endif
 
+	dosTime = (Uint16)( ( local.tm_sec / 2 ) & 31 ); dosTime += (Uint16)( (local.tm_min & 63) << 5); dosTime += (Uint16)( (local.tm_hour & 31) << 11);
+	dosDate = (Uint16)( local.tm_mday & 31 ); dosDate += (Uint16)( ( (local.tm_mon + 1) & 15) << 5); dosDate += (Uint16)( ( ( local.tm_year - kYearOffset ) & 127 ) << 9);
 }
-- 
2.43.0


From 030e570215280c1d293c353ab124832c22afb68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:35 +0000
Subject: [PATCH 79/92] fix: a macro DMX step without a duration lasts the
 default of one second

---
 src/GDTFManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 38b4045..d9ba0ee 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -11692,6 +11692,7 @@ SceneData::GdtfMacroDMXValue::~GdtfMacroDMXValue()
 
 SceneData::GdtfMacroDMXStep::GdtfMacroDMXStep()
 {
+	fDuration = 1; // Default value: 1
 }
 
 SceneData::GdtfMacroDMXStep::GdtfMacroDMXStep(double duration)
-- 
2.43.0


From d5ad7f162c1c1553cd27507842b53b729e1dc6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 80/92] fix: a CRI without a CES is the default CES01, not an
 error

---
 src/GDTFManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index d9ba0ee..276f9a7 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -10853,7 +10853,7 @@ void SceneData::GdtfCRI::OnReadFromNode(const IXMLFileNodePtr & pNode)
     //------------------------------------------------------------------------------------
     // Get the attributes	
     TXString cesStr;  pNode->GetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CES, cesStr);
-    GdtfConverter::ConvertEGdtfColorSampleEnum(cesStr, pNode, fCES);
+    if (!cesStr.IsEmpty()) { GdtfConverter::ConvertEGdtfColorSampleEnum(cesStr, pNode, fCES); }
     //
     TXString colorRenderingIndexStr; pNode->GetNodeAttributeValue(XML_GDTF_ColorRenderingIndex_CRI, colorRenderingIndexStr);
     GdtfConverter::ConvertInteger(colorRenderingIndexStr, pNode, fCRI);
-- 
2.43.0


From a8577716152f488d39bdfe97e7a1248879b6409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:22 +0000
Subject: [PATCH 81/92] fix: the color sample of a CRI can be read through the
 interface

---
 src/Implementation/CGdtfCRI.cpp              | 2 +-
 src/Implementation/CGdtfCRI.h                | 2 +-
 src/Include/IMediaRessourceVectorInterface.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Implementation/CGdtfCRI.cpp b/src/Implementation/CGdtfCRI.cpp
index d7fb0e9..9c8a2ee 100644
--- a/src/Implementation/CGdtfCRI.cpp
+++ b/src/Implementation/CGdtfCRI.cpp
@@ -12,7 +12,7 @@ VectorworksMVR::CGdtfCRIImpl::~CGdtfCRIImpl()
 {
 }
 
-VectorworksMVR::VCOMError  VectorworksMVR::CGdtfCRIImpl::GetColorSample(EGdtfColorSample outVal)
+VectorworksMVR::VCOMError  VectorworksMVR::CGdtfCRIImpl::GetColorSample(EGdtfColorSample& outVal)
 {
     // Check Data
     if (!fCRI) return kVCOMError_NotInitialized;
diff --git a/src/Implementation/CGdtfCRI.h b/src/Implementation/CGdtfCRI.h
index 13b0568..a4b3558 100644
--- a/src/Implementation/CGdtfCRI.h
+++ b/src/Implementation/CGdtfCRI.h
@@ -14,7 +14,7 @@ namespace VectorworksMVR
         virtual ~CGdtfCRIImpl();
         
         // Getter
-        virtual VCOMError VCOM_CALLTYPE     GetColorSample(EGdtfColorSample outVal);
+        virtual VCOMError VCOM_CALLTYPE     GetColorSample(EGdtfColorSample& outVal);
         virtual VCOMError VCOM_CALLTYPE     GetColorRenderingIndex(Uint8& outVal);
         // Setter
         virtual VCOMError VCOM_CALLTYPE     SetColorSample(EGdtfColorSample val);
diff --git a/src/Include/IMediaRessourceVectorInterface.h b/src/Include/IMediaRessourceVectorInterface.h
index 9a17277..223d4c5 100644
--- a/src/Include/IMediaRessourceVectorInterface.h
+++ b/src/Include/IMediaRessourceVectorInterface.h
@@ -1487,7 +1487,7 @@ class DYNAMIC_ATTRIBUTE IGdtfMacro : public IVWUnknown
     {
     public:
         // Getter
-        virtual VCOMError VCOM_CALLTYPE GetColorSample(GdtfDefines::EGdtfColorSample outVal) = 0;
+        virtual VCOMError VCOM_CALLTYPE GetColorSample(GdtfDefines::EGdtfColorSample& outVal) = 0;
         virtual VCOMError VCOM_CALLTYPE GetColorRenderingIndex(Uint8& outVal) = 0;
         // Setter
         virtual VCOMError VCOM_CALLTYPE SetColorSample(GdtfDefines::EGdtfColorSample val) = 0;
-- 
2.43.0


From f493e175599f70475cde67c10a3581b18b4e1795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 82/92] fix: character classes are asked only of characters
 they are defined for

---
 src/GSString.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 6c50dca..25b389b 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -2119,7 +2119,7 @@ TXString& TXString::ftoa(Real64 value, Sint32 precision)
 bool TXString::IsCompleteNumber()
 {
 	auto it = stdUStr.begin();
-    while (it != stdUStr.end() && std::isdigit(*it)) ++it;
+    while (it != stdUStr.end() && *it >= '0' && *it <= '9') ++it;
     return !stdUStr.empty() && it == stdUStr.end();
 
 }
@@ -2167,7 +2167,7 @@ bool TXString::IsCompleteNumber()
 	return iswpunct(aTXChar) != 0;
 #elif GS_LIN
 	// LINUX_IMPLEMENTATION - done
-	return std::ispunct(aTXChar);
+	return iswpunct(aTXChar) != 0;
 #else
 	return std::ispunct(aTXChar);
 #endif
@@ -2180,7 +2180,7 @@ bool TXString::IsCompleteNumber()
 	return iswspace(aTXChar) != 0;
 #elif GS_LIN
 	// LINUX_IMPLEMENTATION - done
-	return std::isspace(aTXChar);
+	return iswspace(aTXChar) != 0;
 #else
 	return std::isspace(aTXChar);
 #endif
-- 
2.43.0


From de7ff10b9b1b8fc2d3b0042618390296b7440b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 83/92] fix: an mDNS service listens when startService returns,
 a query at that moment was missed

---
 mdns_cpp/include/mdns_cpp/mdns.hpp |  2 +-
 mdns_cpp/src/mdns.cpp              | 24 ++++++++++++++----------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/mdns_cpp/include/mdns_cpp/mdns.hpp b/mdns_cpp/include/mdns_cpp/mdns.hpp
index 776fd80..5832332 100644
--- a/mdns_cpp/include/mdns_cpp/mdns.hpp
+++ b/mdns_cpp/include/mdns_cpp/mdns.hpp
@@ -92,7 +92,7 @@ class mDNS {
   
 
  private:
-  void runMainLoop();
+  void runMainLoop(std::vector<int> sockets);
   int openClientSockets(int *sockets, int max_sockets, int port);
   int openServiceSockets(int *sockets, int max_sockets);
 
diff --git a/mdns_cpp/src/mdns.cpp b/mdns_cpp/src/mdns.cpp
index a2bde0a..b46580e 100644
--- a/mdns_cpp/src/mdns.cpp
+++ b/mdns_cpp/src/mdns.cpp
@@ -365,8 +365,19 @@ void mDNS::startService() {
     stopService();
   }
 
+  // The sockets are open when this returns, so no query that is sent from now on is missed
+  constexpr size_t number_of_sockets = 32;
+  int sockets[number_of_sockets];
+  const int num_sockets = openServiceSockets(sockets, sizeof(sockets) / sizeof(sockets[0]));
+  if (num_sockets <= 0) {
+    const auto msg = "Error: Failed to open any client sockets";
+    MDNS_LOG << msg << "\n";
+    return;
+  }
+
   running_ = true;
-  worker_thread_ = std::thread([this]() { this->runMainLoop(); });
+  std::vector<int> opened(sockets, sockets + num_sockets);
+  worker_thread_ = std::thread([this, opened]() { this->runMainLoop(opened); });
 }
 
 void mDNS::stopService() {
@@ -413,15 +424,8 @@ std::vector<std::pair<std::string, uint32_t>> mDNS::getInterfaces()
 #define ITER_SEARCH_TIME 2
 #define MAX_SEARCH_TIME ITER_SEARCH_TIME * 4
 
-void mDNS::runMainLoop() {
-  constexpr size_t number_of_sockets = 32;
-  int sockets[number_of_sockets];
-  const int num_sockets = openServiceSockets(sockets, sizeof(sockets) / sizeof(sockets[0]));
-  if (num_sockets <= 0) {
-    const auto msg = "Error: Failed to open any client sockets";
-    MDNS_LOG << msg << "\n";
-    return;
-  }
+void mDNS::runMainLoop(std::vector<int> sockets) {
+  const int num_sockets = static_cast<int>(sockets.size());
 
   MDNS_LOG << "Opened " << std::to_string(num_sockets) << " socket" << (num_sockets ? "s" : "")
            << " for mDNS service\n";
-- 
2.43.0


From fa4cd303900c7e1a46b64467024ee7896359f7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:43 +0000
Subject: [PATCH 84/92] fix: an mDNS answer whose SRV record just does not fit
 is not written past its buffer

---
 mdns_cpp/src/mdns.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdns_cpp/src/mdns.h b/mdns_cpp/src/mdns.h
index 8da9bf5..4d00206 100644
--- a/mdns_cpp/src/mdns.h
+++ b/mdns_cpp/src/mdns.h
@@ -1100,7 +1100,7 @@ mdns_query_answer(int sock, const void* address, size_t address_size, void* buff
 	// SRV record for <hostname>.<service>.local.
 	data = mdns_string_make_ref(data, remain, full_offset);
 	remain = capacity - MDNS_POINTER_DIFF(data, buffer);
-	if (!data || (remain <= 10))
+	if (!data || (remain <= 16))
 		return -1;
 	udata = (uint16_t*)data;
 	*udata++ = htons(MDNS_RECORDTYPE_SRV);
-- 
2.43.0


From 92af490516c4d0a0150aa8221d9e6815846ef925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:18 +0000
Subject: [PATCH 85/92] fix: names in an archive cannot lead out of the folder
 it is extracted to

---
 src/GDTFManager.cpp                  |  5 +++--
 src/Implementation/CSceneObjImpl.cpp |  3 +++
 src/SceneDataExchange.cpp            |  3 ++-
 src/Utility.cpp                      | 18 ++++++++++++++++++
 src/Utility.h                        |  1 +
 5 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 276f9a7..43794ba 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -7865,7 +7865,8 @@ void GdtfFixture::PrepareWorkingFolder(TXString folderName)
 {
 	//-------------------------------------------------------------------------------------------------
 	// Working Directory
-	if(folderName.IsEmpty()){ folderName = "GdtfGroup"; }
+	// (the folder is emptied, so it has to be one of the fixture alone)
+	if(folderName.IsEmpty() || folderName == "." || ! SystemUtil::IsPathInFolder(folderName)){ folderName = "GdtfGroup"; }
 
 	fWorkingFolder = (IID_FolderIdentifier);
 
@@ -7920,7 +7921,7 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 				// House keeping
 				std::free(data);
 			}
-			else
+			else if (SystemUtil::IsPathInFolder(fileName)) // The name may not lead out of the working folder
 			{
 				//-----------------------------------------------------------------------------
 				// Prepare pointer to the new files            
diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 4c7904f..28b1e20 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -431,6 +431,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetGdtfFixture(IGdtfFix
 	
 	if (gdtfName.Find(".gdtf") == ptrdiff_t(-1)) { gdtfName += ".gdtf";}
 	
+	// The fixtures of the scene are in its working folder only
+	if ( ! SystemUtil::IsPathInFolder(gdtfName)) { return kVCOMError_FileNotFound; }
+	
 	IFolderIdentifierPtr workingFolder = fContext->GetWorkingFolder();
 	
 	IFileIdentifierPtr gdtfFile (IID_FileIdentifier);
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 138a073..ed13e53 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -6,6 +6,7 @@
 #include "HashManager.h"
 #include "GDTFManager.h"
 #include "XmlFileHelper.h"
+#include "Utility.h"
 
 using namespace SceneData;
 
@@ -3757,7 +3758,7 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 			// House keeping
 			std::free(data);
         }
-        else
+        else if (SystemUtil::IsPathInFolder(outPath)) // The name may not lead out of the working folder
         {
 			// Prepare pointer to the new files
 			IFileIdentifierPtr file (IID_FileIdentifier);
diff --git a/src/Utility.cpp b/src/Utility.cpp
index ace1742..6488a06 100644
--- a/src/Utility.cpp
+++ b/src/Utility.cpp
@@ -83,6 +83,24 @@ TXString SystemUtil::ExtractFolderFromPath(TXString& path)
     return folder;
 }
 
+bool SystemUtil::IsPathInFolder(const TXString& relativePath)
+/*
+   Returns false when the path, relative to any folder, can lead out of this folder.
+*/
+{
+    std::string part;
+
+    for (char c : relativePath.GetStdString() + "/")
+    {
+        if (c != '/' && c != '\\') { part += c; continue; }
+
+        if (part == "..") { return false; }
+        part.clear();
+    }
+
+    return true;
+}
+
 bool GdtfUtil::IsValidNameChar(TXChar codepoint) {
     return 
         (codepoint == 0x20                          ||
diff --git a/src/Utility.h b/src/Utility.h
index 1efbc85..1cc4667 100644
--- a/src/Utility.h
+++ b/src/Utility.h
@@ -32,5 +32,6 @@ namespace VectorworksMVR
 	{
 	public:
 		static TXString ExtractFolderFromPath(TXString & path);
+		static bool     IsPathInFolder(const TXString& relativePath);
 	};
 }
\ No newline at end of file
-- 
2.43.0


From a7546212348ed61c369dcd241d16b7a91bd06dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:27 +0000
Subject: [PATCH 86/92] fix: numbers are written and read the same in a locale
 with decimal commas

---
 src/GSString.cpp          | 53 ++++++++++++++++++++++++++++++++++++---
 src/SceneDataExchange.cpp |  2 +-
 2 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 25b389b..32e567d 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -17,6 +17,7 @@
 #include <iostream>
 #include <codecvt>
 #include <iomanip>
+#include <locale>
 
 #if GS_WIN
 // For Unicode normalization form (precomposed v.s. decomposed)
@@ -36,6 +37,48 @@ namespace VectorworksMVR
 {
 
 
+//=======================================================================================
+// Returns the decimal point of the current locale
+static std::string GetDecimalPoint()
+{
+	char buffer[32];
+	snprintf(buffer, sizeof(buffer), "%.1f", 0.5);
+
+	std::string number (buffer);
+	return number.substr(1, number.length() - 2);
+}
+
+//=======================================================================================
+// Converts a real number, always with '.' as decimal point
+static std::string RealToString(Real64 value)
+{
+	std::string number	= std::to_string(value);
+	std::string point	= GetDecimalPoint();
+
+	size_t pos = number.find(point);
+	if (pos != std::string::npos) { number.replace(pos, point.length(), "."); }
+
+	return number;
+}
+
+//=======================================================================================
+// Converts to a real number, always with '.' as decimal point
+static Real64 StringToReal(const char* str)
+{
+	std::string point = GetDecimalPoint();
+	if (point == ".") { return ::atof(str); }
+
+	// The decimal point of the locale is no part of the number
+	std::string number (str);
+	size_t end = number.find(point);
+	if (end != std::string::npos) { number.resize(end); }
+
+	size_t pos = number.find('.');
+	if (pos != std::string::npos) { number.replace(pos, 1, point); }
+
+	return ::atof(number.c_str());
+}
+
 inline void utf32ToTXCharBuffer(char32_t input, TXChar* output);
 inline void utf32BufferToTXCharBuffer(const char32_t* input, TXChar* output, size_t numInputChars = -1);
 inline void txCharBufferToUtf32Buffer(const TXChar* input, char32_t* output, size_t bufElemNum = -1);
@@ -1047,7 +1090,7 @@ TXString& TXString::operator<<(Uint64 n)
 // Appends one real number
 TXString& TXString::operator<<(double number)
 {
-	return (*this += std::to_string(number).c_str());
+	return (*this += RealToString(number).c_str());
 }
 
 //=======================================================================================
@@ -2092,7 +2135,7 @@ Sint64 TXString::atoi64() const
 // returned.
 Real64 TXString::atof() const
 {
-	return ::atof(*this);
+	return StringToReal(*this);
 }
 
 //=======================================================================================
@@ -2106,7 +2149,7 @@ TXString& TXString::itoa(Sint64 value)
 // Sets the current string to the input value
 TXString& TXString::ftoa(Real64 value)
 {
-	return (*this = std::to_string(value));
+	return (*this = RealToString(value));
 }
 
 //=======================================================================================
@@ -2134,6 +2177,7 @@ bool TXString::IsCompleteNumber()
 /*static*/ TXString TXString::ToStringInt(Sint64 value, Sint32 width, wchar_t paddingChar)
 {
 	std::wstringstream out;
+	out.imbue(std::locale::classic());
 	out << std::setfill(paddingChar) << std::setw(width) << value;
 
 	std::wstring wStr = out.str();
@@ -2143,13 +2187,14 @@ bool TXString::IsCompleteNumber()
 //=======================================================================================
 /*static*/ TXString TXString::ToStringReal(Real64 value)
 {
-	return std::to_string(value);
+	return RealToString(value);
 }
 
 //=======================================================================================
 /*static*/ TXString TXString::ToStringReal(Real64 value, Sint32 precision, bool fixed)
 {
 	std::wstringstream out;
+	out.imbue(std::locale::classic());
 	if (fixed)
 		out << std::fixed;
 	out << std::setprecision(precision);
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index ed13e53..e66b3e2 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -1190,7 +1190,7 @@ void SceneDataCustomCommand::OnPrintToFile(IXMLFileNodePtr pNode, SceneDataExcha
 	// Set value	
 	TXString customCommandString = fChannelFunction;
 	customCommandString += fIsPercentage ? "/percent,f " : ",f ";
-	customCommandString += std::to_string(fValue);
+	customCommandString += TXString::ToStringReal(fValue);
 
 	pNode->SetNodeValue(customCommandString);
 }
-- 
2.43.0


From 313791f6b0b9cb0e2d99f1d5ddef51941cf223a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:36 +0000
Subject: [PATCH 87/92] fix: a file that could not be written or read
 completely is reported

---
 src/Implementation/CGdtfFixture.cpp           | 12 ++++---
 .../CMediaRessourceVectorImpl.cpp             |  3 +-
 src/SceneDataExchange.cpp                     |  9 ++---
 src/Wrapper/RawOSFileimpl.cpp                 | 31 ++++++++++++++---
 src/Wrapper/ZIPFileBuffer.cpp                 | 33 ++++++++++++-------
 src/Wrapper/ZIPFileImpl.cpp                   |  9 ++---
 6 files changed, 64 insertions(+), 33 deletions(-)

diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index 2ea3ca4..ae025c3 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -202,13 +202,13 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::Close()
 		
 	fFixtureObject->ExportToFile(fZipFile);
 	
-	fZipFile->Close();
+	VCOMError result = fZipFile->Close();
 
     FreeBuffer();
     fZipFile->ToBuffer(fBuffer, fBufferLength);
 	
-	// Read From File
-	return kVCOMError_NoError;
+	// The file is there only when this worked
+	return result;
 }
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::ReadFromFile(IFileIdentifierPtr file, TXString gdtfFileName)
@@ -223,8 +223,10 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::ReadFromFile(IFileId
         if(size > 0)
         {
             char* tempBuffer = new char[size + 1];
-            rawFile->Read(0, size, tempBuffer);
-            retVal = FromBufferInternal(tempBuffer, size, gdtfFileName);
+            if (VCOM_SUCCEEDED(rawFile->Read(0, size, tempBuffer)))
+            {
+                retVal = FromBufferInternal(tempBuffer, size, gdtfFileName);
+            }
             delete[] tempBuffer;
         }
         rawFile->Close();
diff --git a/src/Implementation/CMediaRessourceVectorImpl.cpp b/src/Implementation/CMediaRessourceVectorImpl.cpp
index 7fa782e..a29c2cd 100644
--- a/src/Implementation/CMediaRessourceVectorImpl.cpp
+++ b/src/Implementation/CMediaRessourceVectorImpl.cpp
@@ -982,8 +982,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CMediaRessourceVectorImpl::Close()
 	// Write Mode
 	if(fWriteMode)
 	{
-		fExchangeObj.WriteToFile(fPath);
-		return kVCOMError_NoError;
+		return fExchangeObj.WriteToFile(fPath) ? kVCOMError_NoError : kVCOMError_Failed;
 	}
 	
 	//------------------------------------------------------------------
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index e66b3e2..34bba85 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3577,10 +3577,7 @@ bool SceneDataExchange::WriteToFile(const IFileIdentifierPtr& file)
 
 	//-------------------------------------------------------------------------------------------------
 	// Store the file on disk
-	zipfile->Close();
-	
-	
-	return true;
+	return VCOM_SUCCEEDED(zipfile->Close());
 }
 
 void SceneDataExchange::AddProviderAndProviderVersion(const TXString& provider, const TXString& providerVersion)
@@ -3730,7 +3727,7 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 	//-------------------------------------------------------------------------------------------------
 	// Create a ZIP File
 	IZIPFilePtr zipfile ( IID_ZIPFile );
-	zipfile->OpenRead(file);
+	if (VCOM_FAILED(zipfile->OpenRead(file)))	{ return false; }
 	
 	// Prepare
     ISceneDataZipBuffer xmlFileBuffer;
@@ -3789,7 +3786,7 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 		ReadFromGeneralSceneDescription(xmlFileBuffer);
     }
 
-	return true;	
+	return xmlFileBuffer.IsSet();	
 }
 
 
diff --git a/src/Wrapper/RawOSFileimpl.cpp b/src/Wrapper/RawOSFileimpl.cpp
index 588e02d..700c8c2 100644
--- a/src/Wrapper/RawOSFileimpl.cpp
+++ b/src/Wrapper/RawOSFileimpl.cpp
@@ -7,6 +7,10 @@
 #include <stdio.h>
 #endif
 
+#ifndef _WINDOWS
+#include <sys/stat.h>
+#endif
+
 using namespace VectorworksMVR::Filing;
 
 CRawOSFileImpl::CRawOSFileImpl()
@@ -40,6 +44,14 @@ VCOMError CRawOSFileImpl::Open(VectorworksMVR::Filing::IFileIdentifier* pFileID,
 	     if ( bReadable == true  && bWritable == false )		fTheFile = std::fopen( path, "rb" );
 	else if ( bReadable == false && bWritable == true  )		fTheFile = std::fopen( path, bTruncateExisting ? "ab" : "wb" );
 	else if ( bReadable == true  && bWritable == true  )		fTheFile = std::fopen( path, bTruncateExisting ? "wb+" : "ab+" );
+
+	// fopen can open a folder, but it has no contents to read
+	struct stat info;
+	if ( fTheFile && ::fstat( ::fileno( fTheFile ), & info ) == 0 && S_ISDIR( info.st_mode ) )
+	{
+		std::fclose( fTheFile );
+		fTheFile = nullptr;
+	}
  #endif
 
 	return fTheFile ? kVCOMError_NoError : kVCOMError_Failed;
@@ -47,17 +59,20 @@ VCOMError CRawOSFileImpl::Open(VectorworksMVR::Filing::IFileIdentifier* pFileID,
 
 VCOMError CRawOSFileImpl::Close()
 {
+	VCOMError result = kVCOMError_NoError;
 	if ( fTheFile )
 	{
 #ifdef _LINUX
 		fsync(fileno(fTheFile));
 #endif
-		std::fclose( fTheFile );
+		// This writes what is still buffered, so it can fail
+		if ( std::fclose( fTheFile ) != 0 )
+			result = kVCOMError_Failed;
 
 		fTheFile = NULL;
 	}
 
-	return kVCOMError_NoError;
+	return result;
 }
 
 VCOMError CRawOSFileImpl::GetFileSize(Uint64& outValue)
@@ -71,8 +86,12 @@ VCOMError CRawOSFileImpl::GetFileSize(Uint64& outValue)
 	// we dont care about chaning the position as this class requires possition when reading/writing
 	if ( std::fseek( fTheFile, 0, SEEK_END ) == 0 )
 	{
-		outValue = std::ftell( fTheFile );
-		result = kVCOMError_NoError;
+		long position = std::ftell( fTheFile );
+		if ( position >= 0 )
+		{
+			outValue = position;
+			result = kVCOMError_NoError;
+		}
 	}
 
 	return result;
@@ -90,8 +109,10 @@ VCOMError CRawOSFileImpl::Read(Uint64 position, Uint64& inoutSize, void* pOutBuf
 		Uint64 read = std::fread( pOutBuffer, 1, inoutSize, fTheFile );
 		ASSERTN(kEveryone, read == inoutSize);
 
+		if ( read == inoutSize )
+			result = kVCOMError_NoError;
+
 		inoutSize = read;
-		return kVCOMError_NoError;
 		
 	}
 
diff --git a/src/Wrapper/ZIPFileBuffer.cpp b/src/Wrapper/ZIPFileBuffer.cpp
index fbf02c6..9c21442 100644
--- a/src/Wrapper/ZIPFileBuffer.cpp
+++ b/src/Wrapper/ZIPFileBuffer.cpp
@@ -36,17 +36,22 @@ VCOMError ZIPFileBuffer::Open(VectorworksMVR::Filing::IFileIdentifier* pFileID,
 		IRawOSFilePtr file(IID_RawOSFile);
 
 		// open file
-		file->Open(pFileID, true, false, false, false);
+		if (VCOM_FAILED(file->Open(pFileID, true, false, false, false)))	{ return kVCOMError_Failed; }
 
 		// get filesize
-		file->GetFileSize(fZIPFileBufferSize);
-		// load in buffer
-		fpZIPFileBuffer      = new Uint8[fZIPFileBufferSize];
-		fAllocatedMemorySize = fZIPFileBufferSize;
-		file->Read(0, fZIPFileBufferSize, fpZIPFileBuffer);
+		VCOMError result = file->GetFileSize(fZIPFileBufferSize);
+		if (VCOM_SUCCEEDED(result))
+		{
+			// load in buffer
+			fpZIPFileBuffer      = new Uint8[fZIPFileBufferSize];
+			fAllocatedMemorySize = fZIPFileBufferSize;
+			result = file->Read(0, fZIPFileBufferSize, fpZIPFileBuffer);
+		}
 
 		// close file
 		file->Close();
+
+		return result;
 	}
 
 	return kVCOMError_NoError ;
@@ -69,21 +74,27 @@ VCOMError ZIPFileBuffer::Open(const char* buffer, size_t length)
 
 VCOMError ZIPFileBuffer::Close()
 {
-	if (!fOpenForRead && fpZIPFileBuffer)
+	VCOMError result = kVCOMError_NoError;
+
+	// An archive that is only kept in memory has no path
+	TXString path;
+	if (fpOpenedFileID)		{ fpOpenedFileID->GetFileFullPath(path); }
+
+	if (!fOpenForRead && fpZIPFileBuffer && ! path.IsEmpty())
 	{
 		// prepare file
 		IRawOSFilePtr file(IID_RawOSFile);
 
 		// open file
-		file->Open(fpOpenedFileID, false, true, false, false);
+		if (VCOM_FAILED(file->Open(fpOpenedFileID, false, true, false, false)))		{ return kVCOMError_Failed; }
 
-		file->Write(0, fZIPFileBufferSize, fpZIPFileBuffer);
+		result = file->Write(0, fZIPFileBufferSize, fpZIPFileBuffer);
 
 		// close file
-		file->Close();
+		if (VCOM_FAILED(file->Close()))	{ result = kVCOMError_Failed; }
 	}
 
-	return kVCOMError_NoError;
+	return result;
 }
 
 VCOMError ZIPFileBuffer::GetFileSize(Uint64& outValue)
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 84d1aa6..5e99eae 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -141,7 +141,7 @@ VCOMError CZIPFileImpl::OpenRead(IFileIdentifier* pFileID)
 	fbOpenedWrite		= false;
 
 	fpOpenedFile = new ZIPFileBuffer();
-	fpOpenedFile->Open( pFileID, true );
+	VCOMError result = fpOpenedFile->Open( pFileID, true );
 	fpOpenedFileID = pFileID;
 
 	IFolderIdentifierPtr pFolderID( IID_FolderIdentifier );
@@ -149,7 +149,7 @@ VCOMError CZIPFileImpl::OpenRead(IFileIdentifier* pFileID)
 	pFolderID->GetFullPath( fFolderPath );
 	pFileID->GetFileFullPath( fOpenedFileFullPath );
 
-	return kVCOMError_NoError;
+	return result;
 }
 
 VCOMError CZIPFileImpl::OpenRead(const char* buffer, size_t length)
@@ -216,14 +216,15 @@ VCOMError CZIPFileImpl::OpenNewWrite(IFileIdentifier* pFileID, bool compressFile
 
 VCOMError CZIPFileImpl::Close()
 {
+	VCOMError result = kVCOMError_NoError;
 	if ( fpOpenedFile )
 	{
-		fpOpenedFile->Close();
+		result				= fpOpenedFile->Close();
 		fbOpenedWrite		= false;
 		fOpenedFileFullPath = "";
 		fFolderPath			= "";
 	}
-	return kVCOMError_NoError;
+	return result;
 }
 
 VCOMError CZIPFileImpl::ToBuffer(char*& p, size_t& inLength)
-- 
2.43.0


From d3cb6e7547ef6521fe6ccfd779996f2aa5d97993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:22 +0000
Subject: [PATCH 88/92] fix: the progress of reading a fixture does not pass
 its own total

---
 src/GDTFManager.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 43794ba..13a051c 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8045,19 +8045,13 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 
 void GdtfFixture::GetFileNodesCount(const IXMLFileNodePtr& rootNode)
 {
-	IXMLFileNodePtr node;
-	rootNode->GetFirstChildNode( &node );
+	// ReadFromNode completes the attribute definitions, wheels, models, geometries, DMX modes and revisions for
+	// every fixture, and the protocols and the physical description when the fixture has them
+	fTotalNodesCount = 6;
 
-	while ( node != nullptr )
-	{
-		fTotalNodesCount++;
-		if ( VCOM_FAILED(( node->GetNextSiblingNode( &node ))))
-		{
-			node = nullptr;
-		}
-	}
-
-	fTotalNodesCount--;
+	IXMLFileNodePtr node;
+	if ( VCOM_SUCCEEDED( rootNode->GetChildNode( XML_GDTF_Protocols, &node ) ) )							{ fTotalNodesCount++; }
+	if ( VCOM_SUCCEEDED( rootNode->GetChildNode( XML_GDTF_FixtureChildNodePhysicalDesrip, &node ) ) )	{ fTotalNodesCount++; }
 }
 
 /*static*/ void	GdtfFixture::AddError(const GdtfParsingError& error)
-- 
2.43.0


From dc8e9de2d5bc90abaa670033a572da60c8eece08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:50 +0000
Subject: [PATCH 89/92] fix: report unknown attributes of Art-Net and sACN

---
 src/GDTFManager.cpp | 32 ++++++++++++++++++++++++++++++++
 src/GDTFManager.h   |  2 ++
 2 files changed, 34 insertions(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 13a051c..d854610 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -11433,6 +11433,22 @@ void GdtfArtNet::OnReadFromNode(const IXMLFileNodePtr& pNode)
 
 }
 
+void SceneData::GdtfArtNet::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
 EGdtfObjectType SceneData::GdtfArtNet::GetObjectType()
 {
 	return EGdtfObjectType::eGdtfArtNet;
@@ -11501,6 +11517,22 @@ void GdtfsAcn::OnReadFromNode(const IXMLFileNodePtr& pNode)
 
 }
 
+void SceneData::GdtfsAcn::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
 EGdtfObjectType SceneData::GdtfsAcn::GetObjectType()
 {
 	return EGdtfObjectType::eGdtf_sACN;
diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index d852afb..5f3eaec 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -2384,6 +2384,7 @@ namespace SceneData
         virtual	TXString						GetNodeName();
         virtual	void							OnPrintToFile(IXMLFileNodePtr pNode);
         virtual	void							OnReadFromNode(const IXMLFileNodePtr& pNode);
+        virtual	void							OnErrorCheck(const IXMLFileNodePtr& pNode);
     };
     typedef GdtfArtNet*	GdtfArtNetPtr;
     
@@ -2407,6 +2408,7 @@ namespace SceneData
         virtual	TXString						GetNodeName();
         virtual	void							OnPrintToFile(IXMLFileNodePtr pNode);
         virtual	void							OnReadFromNode(const IXMLFileNodePtr& pNode);
+        virtual	void							OnErrorCheck(const IXMLFileNodePtr& pNode);
     };
     typedef GdtfsAcn*	GdtfsAcnPtr;    
 
-- 
2.43.0


From 86797986f8859738b9274c7d96d4420201e43832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:29 +0000
Subject: [PATCH 90/92] fix: damaged compressed data cannot bring in
 uninitialised memory

---
 src/Minizip/Source/miniz.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Minizip/Source/miniz.c b/src/Minizip/Source/miniz.c
index 2c9dc91..4158512 100644
--- a/src/Minizip/Source/miniz.c
+++ b/src/Minizip/Source/miniz.c
@@ -1153,6 +1153,9 @@ int mz_inflateInit2(mz_streamp pStream, int window_bits)
   pDecomp = (inflate_state*)pStream->zalloc(pStream->opaque, 1, sizeof(inflate_state));
   if (!pDecomp) return MZ_MEM_ERROR;
 
+  // a damaged stream can refer to what is in front of its first byte
+  memset(pDecomp, 0, sizeof(inflate_state));
+
   pStream->state = (struct mz_internal_state *)pDecomp;
 
   tinfl_init(&pDecomp->m_decomp);
-- 
2.43.0


From 0595620b29243d88608a7bc9627ad2cb069f5e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:28 +0000
Subject: [PATCH 91/92] fix: report unknown attributes of MacroDMX

---
 src/GDTFManager.cpp | 16 ++++++++++++++++
 src/GDTFManager.h   |  1 +
 2 files changed, 17 insertions(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index d854610..880bf78 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -11700,6 +11700,22 @@ void SceneData::GdtfMacroDMX::OnReadFromNode(const IXMLFileNodePtr & pNode)
 								 });
 }
 
+void SceneData::GdtfMacroDMX::OnErrorCheck(const IXMLFileNodePtr& pNode)
+{
+	//------------------------------------------------------------------------------------
+	// Call the parent
+	GdtfObject::OnErrorCheck(pNode);
+
+	//------------------------------------------------------------------------------------
+	// Create needed and optional Attribute Arrays
+	TXStringArray needed;
+	TXStringArray optional;
+
+	//------------------------------------------------------------------------------------
+	// Check Attributes for node
+	GdtfParsingError::CheckNodeAttributes(pNode, needed, optional);
+}
+
 SceneData::GdtfMacroDMXValue::GdtfMacroDMXValue()
 {
 	fDMXChannel = nullptr;
diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index 5f3eaec..7affbac 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -2013,6 +2013,7 @@ namespace SceneData
 		virtual	TXString						GetNodeName();
 		virtual	void							OnPrintToFile(IXMLFileNodePtr pNode);
 		virtual	void							OnReadFromNode(const IXMLFileNodePtr& pNode);
+		virtual	void							OnErrorCheck(const IXMLFileNodePtr& pNode);
 	};
 
 	class GdtfMacroVisualValue : public GdtfObject
-- 
2.43.0


From c2cde1eccf843d566775adc327dc0377172eadee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:29 +0000
Subject: [PATCH 92/92] fix: SetModel of a geometry sets the model

---
 src/Implementation/CGdtfGeometry.cpp | 42 +++++-----------------------
 1 file changed, 7 insertions(+), 35 deletions(-)

diff --git a/src/Implementation/CGdtfGeometry.cpp b/src/Implementation/CGdtfGeometry.cpp
index 5eda77a..faf8aa7 100644
--- a/src/Implementation/CGdtfGeometry.cpp
+++ b/src/Implementation/CGdtfGeometry.cpp
@@ -520,46 +520,18 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::SetName(MvrString n
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::SetModel(IGdtfModel ** model)
 {
-    // Check Data	
+    // Check Data
     if( ! fGeometry) return kVCOMError_NotInitialized;
     
-	//---------------------------------------------------------------------------
-	// Initialize Object
-	SceneData::GdtfModel*	gdtfModel = fGeometry->GetModelRef();
-	if ( ! gdtfModel)	{ return kVCOMError_NotSet; }
-	
-    CGdtfModelImpl*			pModelObj = nullptr;
-    
-    // Query Interface
-    if (VCOM_SUCCEEDED(VWQueryInterface(IID_GdtfModel, (IVWUnknown**) & pModelObj)))
-    {
-        // Check Casting
-        CGdtfModelImpl* pResultInterface = static_cast<CGdtfModelImpl* >(pModelObj);
-        if (pResultInterface)
-        {
-            pResultInterface->SetPointer(gdtfModel);
-        }
-        else
-        {
-            pResultInterface->Release();
-            pResultInterface = nullptr;
-            return kVCOMError_NoInterface;
-        }
-    }
+    // Check Arg
+    if( ! model || ! *model) return kVCOMError_InvalidArg;
     
-    //---------------------------------------------------------------------------
-    // Check Incoming Object
-    if (*model)
-    {
-        (*model)->Release();
-        *model		= NULL;
-    }
+    CGdtfModelImpl* pModelObj = static_cast<CGdtfModelImpl*>(*model);
+    if( ! pModelObj->GetPointer()) return kVCOMError_Failed;
     
-    //---------------------------------------------------------------------------
-    // Set Out Value
-    *model	= pModelObj;
+    fGeometry->SetModel(pModelObj->GetPointer());
     
-    return kVCOMError_NoError;   
+    return kVCOMError_NoError;
 }
     
 
-- 
2.43.0

