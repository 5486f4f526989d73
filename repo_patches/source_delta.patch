From 3469ba044f26dec2d1b93dba2e73b752f4c09283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 01/29] fix: reject UUID texts that contain characters other
 than hexadecimal digits

VWUUID::FromString accepted any character between the separators and
produced a UUID whose text form differs from the one that was given.
---
 src/UUID.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/UUID.cpp b/src/UUID.cpp
index 84e06fe..70938b2 100644
--- a/src/UUID.cpp
+++ b/src/UUID.cpp
@@ -222,6 +222,18 @@ bool VWFC::Tools::VWUUID::FromString(const TXString& str, bool includeBrackets)
 		}
 	}
 
+	if ( b )
+	{
+		// everything between the separators must be a hexadecimal digit
+		const char* pDigits		= (const char*) str + (includeBrackets ? 1 : 0);
+		for(size_t i=0; i<36 && b; i++) {
+			if ( i != 8 && i != 13 && i != 18 && i != 23 ) {
+				char ch = pDigits[i];
+				b = (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F');
+			}
+		}
+	}
+
 	if ( b )
 	{
 		const char* pString		= (const char*) str;
-- 
2.43.0


From ab1bb0defaf91d90abbd5268d57e72f471788b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 02/29] fix: CRGBColor::SetGreen keeps the value it is given

---
 src/RGBColor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RGBColor.cpp b/src/RGBColor.cpp
index 3f3397e..bf0d118 100644
--- a/src/RGBColor.cpp
+++ b/src/RGBColor.cpp
@@ -83,7 +83,7 @@ Sint32 CRGBColor::GetGreen() const
 
 void CRGBColor::SetGreen(Sint32 green)
 {
-	this->green		= (green << 8) | green;
+	this->green		= green;
 }
 
 Sint32 CRGBColor::GetBlue() const
-- 
2.43.0


From 90360a0b08cd325c782b3ce876f2c2e2b323eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 03/29] fix: MVRxchangeDynamicBuffer copies own their bytes and
 the length stays within the storage

---
 src/mvrxchange/mvrxchange_dynamic_buffer.cpp | 41 +++-----------------
 src/mvrxchange/mvrxchange_dynamic_buffer.h   |  1 -
 2 files changed, 6 insertions(+), 36 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_dynamic_buffer.cpp b/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
index 71e8816..81bba05 100644
--- a/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
+++ b/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
@@ -11,52 +11,26 @@ const size_t k_5_MegaByte = 5 * 1024;
 
 MVRxchangeDynamicBuffer::MVRxchangeDynamicBuffer()
 {
-    fReferenceCount = new size_t(1);
-
     fBuffer             = nullptr;
     fBufferSize         = 0;
     fAllocatedMemory    = 0;
 }
 
-MVRxchangeDynamicBuffer::MVRxchangeDynamicBuffer(const MVRxchangeDynamicBuffer& copy)
+MVRxchangeDynamicBuffer::MVRxchangeDynamicBuffer(const MVRxchangeDynamicBuffer& copy) : MVRxchangeDynamicBuffer()
 {
-    fBufferSize         = copy.fBufferSize;
-    fBuffer             = copy.fBuffer;
-    fAllocatedMemory    = copy.fBufferSize;
-
-	// Increase reference Count by one
-    fReferenceCount = copy.fReferenceCount;
-	(*fReferenceCount)++;
+    FromBuffer(copy);
 }
 
 MVRxchangeDynamicBuffer& MVRxchangeDynamicBuffer::operator=(const MVRxchangeDynamicBuffer& copy)
 {
-    DisposeBuffer();
-    fBufferSize         = copy.fBufferSize;
-    fBuffer             = copy.fBuffer;
-    fAllocatedMemory    = copy.fBufferSize;
-
-	// Increase reference Count by one
-    fReferenceCount = copy.fReferenceCount;
-	(*fReferenceCount)++;
+    if(this != &copy) { FromBuffer(copy); }
     return *this;
 }
 
 
 MVRxchangeDynamicBuffer::~MVRxchangeDynamicBuffer()
 {
-	// Decrease refence count
-	(*fReferenceCount)--;
-	
-	// If this is the last matrix
-	if (*fReferenceCount == 0)
-	{
-		// Release pointer
-		DisposeBuffer();
-		
-		// Release reference pointer
-		delete fReferenceCount;
-	}
+    DisposeBuffer();
 }
 
 void MVRxchangeDynamicBuffer::DisposeBuffer()
@@ -77,8 +51,8 @@ void MVRxchangeDynamicBuffer::FromBuffer(const MVRxchangeDynamicBuffer& buffer)
 
 void MVRxchangeDynamicBuffer::FromBuffer(const char* data, size_t length)
 {
-    if(length == 0) { return; }
     DisposeBuffer();
+    if(length == 0) { return; }
     fBufferSize  = length;
     fBuffer      = new char[length];
     memcpy(fBuffer, data, fBufferSize);    
@@ -143,7 +117,7 @@ void MVRxchangeDynamicBuffer::GrowTo(size_t size)
 		}
 
 		// Set the new Buffer size
-		fBufferSize = fBufferSize + (size_t)size;
+		fBufferSize = size;
 
 		// Set the new Buffer
 		fBuffer = tempBuffer;
@@ -169,11 +143,8 @@ void MVRxchangeDynamicBuffer::Reserve(size_t size)
         {
             memcpy(tempBuffer, fBuffer, fBufferSize);
             delete[] fBuffer;
-            fBufferSize = fBufferSize + (size_t)size;
         }
 
-        // Set the new Buffer size
-
         // Set the new Buffer
         fBuffer = tempBuffer;
 
diff --git a/src/mvrxchange/mvrxchange_dynamic_buffer.h b/src/mvrxchange/mvrxchange_dynamic_buffer.h
index 82ddc5c..686248d 100644
--- a/src/mvrxchange/mvrxchange_dynamic_buffer.h
+++ b/src/mvrxchange/mvrxchange_dynamic_buffer.h
@@ -28,7 +28,6 @@ namespace MVRxchangeNetwork
         char*           fBuffer;
         size_t          fBufferSize;
         size_t          fAllocatedMemory;
-        size_t*	        fReferenceCount;
     };
 
 }
-- 
2.43.0


From 1c73996b38f39789bc760e0c163eded4ad0afc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 04/29] fix: MVR-xchange packets hold header and announced
 body, and the client rejects foreign headers

---
 src/mvrxchange/mvrxchange_client.cpp  | 4 +---
 src/mvrxchange/mvrxchange_message.cpp | 5 ++++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_client.cpp b/src/mvrxchange/mvrxchange_client.cpp
index 605b92b..5d706db 100644
--- a/src/mvrxchange/mvrxchange_client.cpp
+++ b/src/mvrxchange/mvrxchange_client.cpp
@@ -42,12 +42,10 @@ bool MVRxchangeClient::ReadMessage(SendResult& res, std::chrono::steady_clock::d
     // Run the operation until it completes, or until the timeout.
     Run(timeout);
 
-    res.success = !res.error.failed();
+    res.success = !res.error.failed() && res.message.DecodeHeader();
     
     if(res.success)
     {
-        res.message.DecodeHeader();
-
         boost::asio::async_read(fSocket,
         boost::asio::buffer(res.message.GetBody(), res.message.GetBodyLength()),
         [&](const boost::system::error_code& result_error,
diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 71787b6..8857faf 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -112,8 +112,11 @@ bool MVRxchangePacket::DecodeHeader()
     fType= swap_endian(fType);
     fBodyLength = swap_endian(fBodyLength);
 
+    // Reject a length that cannot be stored together with the header
+    if (fBodyLength > SIZE_MAX - total_header_length) { fBodyLength = 0; return false; }
+
     // Prepare Buffer
-    fData->GrowTo(fBodyLength);
+    fData->GrowTo(total_header_length + fBodyLength);
 
     return true;
 }
-- 
2.43.0


From 0ac88b6299c65b934b9c3c0a05407a4796cb0636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 05/29] fix: MVRxchangePacket initialises the version it sends

---
 src/mvrxchange/mvrxchange_message.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 8857faf..590a79e 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -30,6 +30,7 @@ T swap_endian(T u)
 MVRxchangePacket::MVRxchangePacket()
 {
     fFlag       = kMVR_Package_Flag;
+    fVersion    = 1;
     fNumber     = 0;
     fCount      = 0;
     fType       = 0;
-- 
2.43.0


From 8212ec26a1c51caa41e137ade0a155fe9f2651b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 06/29] fix: MVR-xchange message texts are clipped to their
 fields instead of overflowing them

---
 src/mvrxchange/mvrxchange_message.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 590a79e..64d5fe1 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -171,11 +171,11 @@ void MVR_COMMIT_ToJson(const IMVRxchangeService::MVR_COMMIT_MESSAGE& msg, nlohma
 
 void MVR_COMMIT_FromJson(const nlohmann::json& payload, IMVRxchangeService::MVR_COMMIT_MESSAGE& in)
 {
-    strcpy(in.Comment, payload["Comment"].get<std::string>().c_str());
+    in.Comment = payload["Comment"].get<std::string>().c_str();
     in.VersionMajor= payload["verMajor"];
     in.VersionMinor= payload["verMinor"];
     in.FileSize= payload["FileSize"];
-    strcpy(in.FileName, payload["FileName"].get<std::string>().c_str());
+    in.FileName = payload["FileName"].get<std::string>().c_str();
 
     SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.FileUUID);
     SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.StationUUID);
@@ -348,8 +348,8 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN;
         in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
         in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        strcpy(in.JOIN.Provider, payload["Provider"].get<std::string>().c_str());
-        strcpy(in.JOIN.StationName, payload["StationName"].get<std::string>().c_str());
+        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
+        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
         noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
 
         in.JOIN.Commits.clear();
@@ -364,12 +364,12 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN_RET;
         in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
         in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        strcpy(in.JOIN.Provider, payload["Provider"].get<std::string>().c_str());
-        strcpy(in.JOIN.StationName, payload["StationName"].get<std::string>().c_str());
+        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
+        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
         noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
 
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
 
         in.JOIN.Commits.clear();
         for (auto &it : payload["Commits"])
@@ -387,7 +387,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }
     else if (payload["Type"] == "MVR_REQUEST")
     {
@@ -409,7 +409,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }
     else if (payload["Type"] == "MVR_LEAVE")
     {
@@ -427,7 +427,7 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE_RET;
         in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetError = payload["Message"].get<std::string>().c_str();
     }else{
         throw std::runtime_error("Unable to parse payload type correctly");
     }
-- 
2.43.0


From 7cc12ed36f5f9e700af859905a8d3b8b2d1d890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 07/29] fix: malformed MVR-xchange messages end in a parse
 error instead of terminating the peer

---
 src/mvrxchange/mvrxchange_message.cpp | 83 +++++++++++++--------------
 1 file changed, 41 insertions(+), 42 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 64d5fe1..e657ef5 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -171,18 +171,18 @@ void MVR_COMMIT_ToJson(const IMVRxchangeService::MVR_COMMIT_MESSAGE& msg, nlohma
 
 void MVR_COMMIT_FromJson(const nlohmann::json& payload, IMVRxchangeService::MVR_COMMIT_MESSAGE& in)
 {
-    in.Comment = payload["Comment"].get<std::string>().c_str();
-    in.VersionMajor= payload["verMajor"];
-    in.VersionMinor= payload["verMinor"];
-    in.FileSize= payload["FileSize"];
-    in.FileName = payload["FileName"].get<std::string>().c_str();
+    in.Comment = payload.at("Comment").get<std::string>().c_str();
+    in.VersionMajor= payload.at("verMajor");
+    in.VersionMinor= payload.at("verMinor");
+    in.FileSize= payload.at("FileSize");
+    in.FileName = payload.at("FileName").get<std::string>().c_str();
 
-    SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.FileUUID);
-    SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.StationUUID);
+    SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.FileUUID);
+    SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.StationUUID);
 
     in.ForStationsUUID.clear();
     // TODO
-    for(const auto& e : payload["ForStationsUUID"])
+    for(const auto& e : payload.at("ForStationsUUID"))
     {
         in.ForStationsUUID.emplace_back();
         if(!SceneData::GdtfConverter::ConvertUUID(e.get<std::string>(), in.ForStationsUUID.back())){
@@ -343,60 +343,60 @@ bool HandleStringBool(const nlohmann::json& item)
 void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload, VectorworksMVR::IMVRxchangeService::IMVRxchangeMessage &in)
 {
     bool noUUIDError = true;
-    if (payload["Type"] == "MVR_JOIN")
+    if (payload.at("Type") == "MVR_JOIN")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN;
-        in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
-        in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
-        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
+        in.JOIN.VersionMajor = HandleStringNumber(payload.at("verMajor"));
+        in.JOIN.VersionMinor = HandleStringNumber(payload.at("verMinor"));
+        in.JOIN.Provider = payload.at("Provider").get<std::string>().c_str();
+        in.JOIN.StationName = payload.at("StationName").get<std::string>().c_str();
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.JOIN.StationUUID);
 
         in.JOIN.Commits.clear();
-        for (auto &it : payload["Commits"])
+        for (auto &it : payload.at("Commits"))
         {
             in.JOIN.Commits.emplace_back();
             MVR_COMMIT_FromJson(it, in.JOIN.Commits.back());
         }
     }
-    else if (payload["Type"] == "MVR_JOIN_RET")
+    else if (payload.at("Type") == "MVR_JOIN_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN_RET;
-        in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
-        in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        in.JOIN.Provider = payload["Provider"].get<std::string>().c_str();
-        in.JOIN.StationName = payload["StationName"].get<std::string>().c_str();
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
+        in.JOIN.VersionMajor = HandleStringNumber(payload.at("verMajor"));
+        in.JOIN.VersionMinor = HandleStringNumber(payload.at("verMinor"));
+        in.JOIN.Provider = payload.at("Provider").get<std::string>().c_str();
+        in.JOIN.StationName = payload.at("StationName").get<std::string>().c_str();
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.JOIN.StationUUID);
 
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
 
         in.JOIN.Commits.clear();
-        for (auto &it : payload["Commits"])
+        for (auto &it : payload.at("Commits"))
         {
             in.JOIN.Commits.emplace_back();
             MVR_COMMIT_FromJson(it, in.JOIN.Commits.back());
         }
     }
-    else if (payload["Type"] == "MVR_COMMIT")
+    else if (payload.at("Type") == "MVR_COMMIT")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT;
         MVR_COMMIT_FromJson(payload, in.COMMIT);
     }
-    else if (payload["Type"] == "MVR_COMMIT_RET")
+    else if (payload.at("Type") == "MVR_COMMIT_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }
-    else if (payload["Type"] == "MVR_REQUEST")
+    else if (payload.at("Type") == "MVR_REQUEST")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST;
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.REQUEST.FileUUID);
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.REQUEST.FileUUID);
 
         in.REQUEST.FromStationUUID.clear();
         // TODO
-        for (const auto &e : payload["FromStationUUID"])
+        for (const auto &e : payload.at("FromStationUUID"))
         {
             in.REQUEST.FromStationUUID.emplace_back();
             if (!SceneData::GdtfConverter::ConvertUUID(e.get<std::string>(), in.REQUEST.FromStationUUID.back()))
@@ -405,29 +405,29 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
             }
         }
     }
-    else if (payload["Type"] == "MVR_REQUEST_RET")
+    else if (payload.at("Type") == "MVR_REQUEST_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }
-    else if (payload["Type"] == "MVR_LEAVE")
+    else if (payload.at("Type") == "MVR_LEAVE")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE;
         if ( payload.contains( "FromStationUUID" ) )
         {
-            noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["FromStationUUID"].get<std::string>(), in.LEAVE.FromStationUUID);
+            noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("FromStationUUID").get<std::string>(), in.LEAVE.FromStationUUID);
         }
         else if ( payload.contains( "StationUUID" ) )
         {
-            noUUIDError = SceneData::GdtfConverter::ConvertUUID( payload[ "StationUUID" ].get<std::string>(), in.LEAVE.FromStationUUID );
+            noUUIDError = SceneData::GdtfConverter::ConvertUUID( payload.at("StationUUID").get<std::string>(), in.LEAVE.FromStationUUID );
         }
     }
-    else if (payload["Type"] == "MVR_LEAVE_RET")
+    else if (payload.at("Type") == "MVR_LEAVE_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        in.RetError = payload["Message"].get<std::string>().c_str();
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }else{
         throw std::runtime_error("Unable to parse payload type correctly");
     }
@@ -464,12 +464,11 @@ void MVRxchangePacket::ToExternalMessage(VectorworksMVR::IMVRxchangeService::IMV
             return;
         }
 
-        MVRXCHANGE_LOG("received message of type: " << payload["Type"].get<std::string>());
-
         try
         {
             // Reset type
             in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_UNDEFINED;
+            MVRXCHANGE_LOG("received message of type: " << payload["Type"].get<std::string>());
             Internal_ToExternalMessage(payload, in);
         }
         catch (const std::exception &e)
-- 
2.43.0


From 54c3747254ca5f9296045fa18b467183d36588a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 08/29] fix: reject the one announced body length for which the
 packet's storage size wraps to zero

---
 src/mvrxchange/mvrxchange_message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index e657ef5..746d27a 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -114,7 +114,7 @@ bool MVRxchangePacket::DecodeHeader()
     fBodyLength = swap_endian(fBodyLength);
 
     // Reject a length that cannot be stored together with the header
-    if (fBodyLength > SIZE_MAX - total_header_length) { fBodyLength = 0; return false; }
+    if (fBodyLength >= SIZE_MAX - total_header_length) { fBodyLength = 0; return false; }
 
     // Prepare Buffer
     fData->GrowTo(total_header_length + fBodyLength);
-- 
2.43.0


From 7885be075f00ead840bcb7574f4923392bd9e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 09/29] fix: reading past the end of an in-memory archive stops
 at its end

---
 src/Wrapper/ZIPFileBuffer.cpp | 6 +++++-
 src/Wrapper/ZIPFileImpl.cpp   | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Wrapper/ZIPFileBuffer.cpp b/src/Wrapper/ZIPFileBuffer.cpp
index baaa00f..50c4020 100644
--- a/src/Wrapper/ZIPFileBuffer.cpp
+++ b/src/Wrapper/ZIPFileBuffer.cpp
@@ -94,7 +94,11 @@ VCOMError ZIPFileBuffer::GetFileSize(Uint64& outValue)
 
 VCOMError ZIPFileBuffer::Read(Uint64 position, Uint64& inoutSize, void* pOutBuffer)
 {
-	memcpy(pOutBuffer, fpZIPFileBuffer + position, (size_t)inoutSize);
+	// Only the bytes inside the archive can be read
+	Uint64 available = (position < fZIPFileBufferSize) ? fZIPFileBufferSize - position : 0;
+	if (inoutSize > available) { inoutSize = available; }
+
+	if (inoutSize > 0) { memcpy(pOutBuffer, fpZIPFileBuffer + position, (size_t)inoutSize); }
 	return kVCOMError_NoError;
 }
 
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 3c3944e..1a8ee32 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -1008,7 +1008,7 @@ void CZIPFileImpl::ReadLong( Uint32& outRead, Uint32& currentReadPosition )
 		Uint64 length = 0;
 		this->fpOpenedFile->GetFileSize(length);
 
-		if(currentReadPosition >= length)
+		if(currentReadPosition + sizeof(Uint32) > length)
 		{
 			outRead = 0;
 		}
@@ -1028,7 +1028,7 @@ void CZIPFileImpl::ReadShort( Uint16& outRead, Uint32& currentReadPosition )
 		Uint64 length = 0;
 		this->fpOpenedFile->GetFileSize(length);
 
-		if(currentReadPosition >= length)
+		if(currentReadPosition + sizeof(Uint16) > length)
 		{
 			outRead = 0;
 		}
-- 
2.43.0


From c0311df0099ba465985d6870ca33716ff0b94527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 10/29] fix: names of archive entries stay inside the archive
 layer's name buffer

---
 src/Wrapper/ZIPFileImpl.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 1a8ee32..590fbc4 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -285,10 +285,13 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 		currentReadPosition += ( 6 * kShortLength ) + ( 3 * kLongLength ); // the file name length will be found here
 		this->ReadShort( fileNameLength, currentReadPosition );
 		currentReadPosition += ( 4 * kShortLength ) + ( 2 * kLongLength ); // the file name will be found here
+		if ( fileNameLength > sizeof( fReadFileName ) )
+			return kVCOMError_Failed;
+
 		Uint64 inOutReadSize = (Uint64)fileNameLength;
 		this->ReadFromFile( currentReadPosition, inOutReadSize, (void*) fReadFileName );
 
-		if ( ( (size_t)inOutReadSize == fileNameLength ) &&  0 != strcmp(fReadFileName, ""))
+		if ( ( (size_t)inOutReadSize == fileNameLength ) && fileNameLength > 0 && fReadFileName[0] != 0 )
 		{
 			outPath  = std::string( fReadFileName, fileNameLength );
 		}
@@ -1218,6 +1221,9 @@ void CZIPFileImpl::GetFileLocalHeaderPosition( const std::string& path, Uint32&
 		currentReadPosition += ( 2 * kLongLength );							// start of variable data
 	
 		this->ReadLong( localHeaderOffset, currentReadPosition );
+		if ( fileNameLength > sizeof( fReadFileName ) )
+			return;
+
 		Uint64 inOutReadSize = (Uint64)fileNameLength;
 		this->ReadFromFile( currentReadPosition, inOutReadSize, fReadFileName );
 
@@ -1272,12 +1278,15 @@ void CZIPFileImpl::GetFileCentralHeaderPosition( const std::string& path, Uint32
 		// start of variable data
 
 		this->ReadLong( localHeaderOffset, currentReadPosition );
+		if ( fileNameLength > sizeof( fReadFileName ) )
+			return;
+
 		Uint64 inOutReadSize = (Uint64)fileNameLength;
 		this->ReadFromFile( currentReadPosition, inOutReadSize, fReadFileName );
 		
 		if ( inOutReadSize != fileNameLength )
 		{
-			bError = true;
+			return;
 		}
 
 		if (((size_t)path.size() == fileNameLength ) &&  0 == memcmp(fReadFileName, path.c_str(), fileNameLength))
-- 
2.43.0


From a669cb1f516dc69337ff5c37df8328a326ebff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:05 +0000
Subject: [PATCH 11/29] fix: extracting an entry that is missing or cut off
 fails instead of using uninitialised data

---
 src/Wrapper/ZIPFileImpl.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 590fbc4..20768be 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -417,7 +417,9 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 		return kVCOMError_NotInitialized;
 	
 	SZIPFileInfo fileInfo;
-	this->GetFileInfo( path, fileInfo );
+	err = this->GetFileInfo( path, fileInfo );
+	if ( err != kVCOMError_NoError )
+		return err;
 	
 	Uint32 currentReadPosition = fileInfo.dwOffsetOfLocalHeader;
 	currentReadPosition += ( 5 * kShortLength ) + ( 4 * kLongLength ); // start of variable data
@@ -435,7 +437,11 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 	Uint64 inOutReadSize = (Uint64)fileInfo.dwCompressedSize;
 	this->ReadFromFile( currentReadPosition, inOutReadSize, (void*)readData ); 
 	
-	if ( fileInfo.dwCompressionMethod == 12  /* bzip2 */)
+	if ( inOutReadSize != fileInfo.dwCompressedSize )
+	{
+		err = kVCOMError_Failed; // the archive ends before the entry does
+	}
+	else if ( fileInfo.dwCompressionMethod == 12  /* bzip2 */)
 	{
 		SceneData::GdtfFixture::AddError(GdtfParsingError(GdtfDefines::EGdtfParsingError::eFileWithUnsupportedEncodingInZip)); 
 		err = kVCOMError_Failed;
-- 
2.43.0


From 6a750be02dc5f80a8350570253371d46038187e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 12/29] fix: a central directory record carries the entry's own
 comment, of the length it announces

---
 src/Wrapper/ZIPFileImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 20768be..0673f80 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -1100,7 +1100,7 @@ void CZIPFileImpl::WriteCentralDirectoryHeader( SZIPArchiveInfo* zipArchiveInfo,
 		this->WriteLong( currentFileInfo.dwExternalAttrib, currentWritePosition );
 		this->WriteLong( currentFileInfo.dwOffsetOfLocalHeader, currentWritePosition );
 		this->WriteToFile( (void*)(const char *)currentFileInfo.fFileName, currentWritePosition, currentFileInfo.fFileName.GetEncodingLength(ETXEncoding::eUTF8));
-		this->WriteToFile( (void*)(const char *)zipArchiveInfo->fFileComment, currentWritePosition, zipArchiveInfo->dwCommentLength );
+		this->WriteToFile( (void*)(const char *)currentFileInfo.fComment, currentWritePosition, currentFileInfo.fComment.GetEncodingLength(ETXEncoding::eUTF8));
 	}
 }
 
@@ -1125,7 +1125,7 @@ void CZIPFileImpl::WriteCentralDirectoryHeader( SZIPArchiveInfo* zipArchiveInfo,
 	this->WriteLong( zipFileInfo->dwExternalAttrib, currentWritePosition );
 	this->WriteLong( zipFileInfo->dwOffsetOfLocalHeader, currentWritePosition );
 	this->WriteToFile( (void*)(const char *)zipFileInfo->fFileName, currentWritePosition, zipFileInfo->fFileName.GetEncodingLength(ETXEncoding::eUTF8));
-	this->WriteToFile( (void*)(const char *)zipArchiveInfo->fFileComment, currentWritePosition, zipArchiveInfo->dwCommentLength );
+	this->WriteToFile( (void*)(const char *)zipFileInfo->fComment, currentWritePosition, zipFileInfo->fComment.GetEncodingLength(ETXEncoding::eUTF8));
 	
 }
 
-- 
2.43.0


From b5d24841a7a5f24e618b0ea919f99b83883fda9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 13/29] fix: XML file objects count their holders from zero and
 are destroyed with the last one

---
 src/rapidxmlsupport/XMLFileImpl.cpp     | 3 ++-
 src/rapidxmlsupport/XMLFileNodeImpl.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rapidxmlsupport/XMLFileImpl.cpp b/src/rapidxmlsupport/XMLFileImpl.cpp
index 1c04d1c..08ba16d 100644
--- a/src/rapidxmlsupport/XMLFileImpl.cpp
+++ b/src/rapidxmlsupport/XMLFileImpl.cpp
@@ -16,6 +16,7 @@ using namespace VectorworksMVR::VWFC::Tools;
 // ----------------------------------------------------------------------------------------------------
 CXMLFileImpl::CXMLFileImpl()
 {
+	fRefCnt = 0;
 }
 
 CXMLFileImpl::~CXMLFileImpl()
@@ -210,7 +211,7 @@ uint32_t CXMLFileImpl::Release()
 
 		// mechanizm for immediate delete of the interface instance
 		if ( fRefCnt == 0 ) {
-			// ::GS_VWNotifyDeleteInterface( this ); TODO
+			delete this;
 			// EXIT IMMEDIATELY! 'this' no longer exist!!!
 			return 0;
 		}
diff --git a/src/rapidxmlsupport/XMLFileNodeImpl.cpp b/src/rapidxmlsupport/XMLFileNodeImpl.cpp
index ed61d0a..205fc18 100644
--- a/src/rapidxmlsupport/XMLFileNodeImpl.cpp
+++ b/src/rapidxmlsupport/XMLFileNodeImpl.cpp
@@ -13,6 +13,7 @@ using namespace VectorworksMVR::VWFC::Tools;
 // ----------------------------------------------------------------------------------------------------
 CXMLFileNodeImpl::CXMLFileNodeImpl()
 {
+	fRefCnt = 0;
 	fElement = nullptr;
 }
 
@@ -34,7 +35,7 @@ uint32_t CXMLFileNodeImpl::Release()
 
 		// mechanizm for immediate delete of the interface instance
 		if ( fRefCnt == 0 ) {
-			// ::GS_VWNotifyDeleteInterface( this ); TODO
+			delete this;
 			// EXIT IMMEDIATELY! 'this' no longer exist!!!
 			return 0;
 		}
-- 
2.43.0


From a435d5eb281b02cb24e8d4e1c2fe5d64e233332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:54 +0000
Subject: [PATCH 14/29] fix: interface objects start without a bound data
 object

---
 src/Implementation/CGdtfCRI.cpp              | 1 +
 src/Implementation/CGdtfCRIGroup.cpp         | 1 +
 src/Implementation/CGdtfDmxProfile.cpp       | 1 +
 src/Implementation/CGdtfMacroDMX.cpp         | 1 +
 src/Implementation/CGdtfMacroDMXStep.cpp     | 1 +
 src/Implementation/CGdtfMacroDMXValue.cpp    | 1 +
 src/Implementation/CGdtfMacroVisual.cpp      | 1 +
 src/Implementation/CGdtfMacroVisualStep.cpp  | 1 +
 src/Implementation/CGdtfMacroVisualValue.cpp | 1 +
 src/Implementation/CGdtfPoint.cpp            | 1 +
 10 files changed, 10 insertions(+)

diff --git a/src/Implementation/CGdtfCRI.cpp b/src/Implementation/CGdtfCRI.cpp
index d7fb0e9..2608afd 100644
--- a/src/Implementation/CGdtfCRI.cpp
+++ b/src/Implementation/CGdtfCRI.cpp
@@ -6,6 +6,7 @@
 
 VectorworksMVR::CGdtfCRIImpl::CGdtfCRIImpl()
 {
+    fCRI = nullptr;
 }
 
 VectorworksMVR::CGdtfCRIImpl::~CGdtfCRIImpl()
diff --git a/src/Implementation/CGdtfCRIGroup.cpp b/src/Implementation/CGdtfCRIGroup.cpp
index 87f9b50..0d89f6f 100644
--- a/src/Implementation/CGdtfCRIGroup.cpp
+++ b/src/Implementation/CGdtfCRIGroup.cpp
@@ -8,6 +8,7 @@
 
 VectorworksMVR::CGdtfCRIGroupImpl::CGdtfCRIGroupImpl()
 {
+    fCRIGroup = nullptr;
 }
 
 VectorworksMVR::CGdtfCRIGroupImpl::~CGdtfCRIGroupImpl()
diff --git a/src/Implementation/CGdtfDmxProfile.cpp b/src/Implementation/CGdtfDmxProfile.cpp
index fd1a76f..89013ae 100644
--- a/src/Implementation/CGdtfDmxProfile.cpp
+++ b/src/Implementation/CGdtfDmxProfile.cpp
@@ -8,6 +8,7 @@
 
 VectorworksMVR::CGdtfDMXProfileImpl::CGdtfDMXProfileImpl()
 {
+    fDMXProfile = nullptr;
 }
 
 VectorworksMVR::CGdtfDMXProfileImpl::~CGdtfDMXProfileImpl()
diff --git a/src/Implementation/CGdtfMacroDMX.cpp b/src/Implementation/CGdtfMacroDMX.cpp
index 966502f..be7acea 100644
--- a/src/Implementation/CGdtfMacroDMX.cpp
+++ b/src/Implementation/CGdtfMacroDMX.cpp
@@ -8,6 +8,7 @@
 
 VectorworksMVR::CGdtfMacroDMXImpl::CGdtfMacroDMXImpl()
 {
+    fMacroDMX = nullptr;
 }
 
 VectorworksMVR::CGdtfMacroDMXImpl::~CGdtfMacroDMXImpl()
diff --git a/src/Implementation/CGdtfMacroDMXStep.cpp b/src/Implementation/CGdtfMacroDMXStep.cpp
index 3c350b0..0e4660b 100644
--- a/src/Implementation/CGdtfMacroDMXStep.cpp
+++ b/src/Implementation/CGdtfMacroDMXStep.cpp
@@ -9,6 +9,7 @@
 
 VectorworksMVR::CGdtfMacroDMXStepImpl::CGdtfMacroDMXStepImpl()
 {
+    fMacroDMXStep = nullptr;
 }
 
 VectorworksMVR::CGdtfMacroDMXStepImpl::~CGdtfMacroDMXStepImpl()
diff --git a/src/Implementation/CGdtfMacroDMXValue.cpp b/src/Implementation/CGdtfMacroDMXValue.cpp
index e7e6206..57d37be 100644
--- a/src/Implementation/CGdtfMacroDMXValue.cpp
+++ b/src/Implementation/CGdtfMacroDMXValue.cpp
@@ -7,6 +7,7 @@
 
 VectorworksMVR::CGdtfMacroDMXValueImpl::CGdtfMacroDMXValueImpl()
 {
+    fMacroDMXValue = nullptr;
 }
 
 VectorworksMVR::CGdtfMacroDMXValueImpl::~CGdtfMacroDMXValueImpl()
diff --git a/src/Implementation/CGdtfMacroVisual.cpp b/src/Implementation/CGdtfMacroVisual.cpp
index 459a9ad..63f5107 100644
--- a/src/Implementation/CGdtfMacroVisual.cpp
+++ b/src/Implementation/CGdtfMacroVisual.cpp
@@ -9,6 +9,7 @@
 
 VectorworksMVR::CGdtfMacroVisualImpl::CGdtfMacroVisualImpl()
 {
+    fMacroVisual = nullptr;
 }
 
 VectorworksMVR::CGdtfMacroVisualImpl::~CGdtfMacroVisualImpl()
diff --git a/src/Implementation/CGdtfMacroVisualStep.cpp b/src/Implementation/CGdtfMacroVisualStep.cpp
index bafde1b..cd7876e 100644
--- a/src/Implementation/CGdtfMacroVisualStep.cpp
+++ b/src/Implementation/CGdtfMacroVisualStep.cpp
@@ -8,6 +8,7 @@
 
 VectorworksMVR::CGdtfMacroVisualStepImpl::CGdtfMacroVisualStepImpl()
 {
+    fMacroVisualStep = nullptr;
 }
 
 VectorworksMVR::CGdtfMacroVisualStepImpl::~CGdtfMacroVisualStepImpl()
diff --git a/src/Implementation/CGdtfMacroVisualValue.cpp b/src/Implementation/CGdtfMacroVisualValue.cpp
index c1f5848..0deff9c 100644
--- a/src/Implementation/CGdtfMacroVisualValue.cpp
+++ b/src/Implementation/CGdtfMacroVisualValue.cpp
@@ -8,6 +8,7 @@
 
 VectorworksMVR::CGdtfMacroVisualValueImpl::CGdtfMacroVisualValueImpl()
 {
+    fMacroVisualValue = nullptr;
 }
 
 VectorworksMVR::CGdtfMacroVisualValueImpl::~CGdtfMacroVisualValueImpl()
diff --git a/src/Implementation/CGdtfPoint.cpp b/src/Implementation/CGdtfPoint.cpp
index 38097fb..138bca6 100644
--- a/src/Implementation/CGdtfPoint.cpp
+++ b/src/Implementation/CGdtfPoint.cpp
@@ -6,6 +6,7 @@
 
 VectorworksMVR::CGdtfPointImpl::CGdtfPointImpl()
 {
+    fPoint = nullptr;
 }
 
 VectorworksMVR::CGdtfPointImpl::~CGdtfPointImpl()
-- 
2.43.0


From cfa940a353ebecf385cda4a1cc9af747ce31ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 15/29] fix: methods of unbound DMX modes, geometries and scene
 objects report that they are not initialized

---
 src/Implementation/CGdtfDmxMode.cpp           | 9 +++++++++
 src/Implementation/CGdtfGeometry.cpp          | 8 ++++++++
 src/Implementation/CGeometryReferenceImpl.cpp | 3 +++
 src/Implementation/CSceneObjImpl.cpp          | 6 ++++++
 4 files changed, 26 insertions(+)

diff --git a/src/Implementation/CGdtfDmxMode.cpp b/src/Implementation/CGdtfDmxMode.cpp
index 4af9a64..c2c90d6 100644
--- a/src/Implementation/CGdtfDmxMode.cpp
+++ b/src/Implementation/CGdtfDmxMode.cpp
@@ -409,6 +409,9 @@ VectorworksMVR::VCOMError VCOM_CALLTYPE VectorworksMVR::CGdtfDmxModeImpl::GetDmx
 
 VectorworksMVR::VCOMError VCOM_CALLTYPE VectorworksMVR::CGdtfDmxModeImpl::CreateDmxMacro(MvrString name, IGdtfMacro ** macro)
 {
+	// Check Pointer
+	if (!fDmxMode) return kVCOMError_NotInitialized;
+
 	// Create the new Macro
 	TXString vwName(name);
 
@@ -464,6 +467,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxModeImpl::GetBreakCount(size_t
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxModeImpl::GetBreakAt(size_t at, size_t& breakId)
 {
+    // Check Pointer
+    if (!fDmxMode) return kVCOMError_NotInitialized;
+
     if(at >= fDmxMode->GetBreakArray().size())
     {
         return kVCOMError_OutOfBounds;
@@ -476,6 +482,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxModeImpl::GetBreakAt(size_t at
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxModeImpl::GetFootprintForBreak(size_t inBreak, size_t& footprint)
 {
+    // Check Pointer
+    if (!fDmxMode) return kVCOMError_NotInitialized;
+
     footprint = fDmxMode->GetFootPrintForBreak(inBreak);
     return kVCOMError_NoError;
 }
diff --git a/src/Implementation/CGdtfGeometry.cpp b/src/Implementation/CGdtfGeometry.cpp
index 75bac24..6f437ad 100644
--- a/src/Implementation/CGdtfGeometry.cpp
+++ b/src/Implementation/CGdtfGeometry.cpp
@@ -1069,6 +1069,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::SetIsCurved(bool is
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetCountLinkedDmxChannel(size_t& count, IGdtfDmxMode * forMode)
 {
+	// Check Pointer
+	if ( ! fGeometry) { return kVCOMError_NotInitialized; }
+
 	// Get Count
 	count = 0;
 
@@ -1078,6 +1081,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetCountLinkedDmxCh
 
 	// Get Array
 	SceneData::GdtfDmxModePtr 		scMode 	 = modeInterface->getPointer();
+	if( ! scMode) { return kVCOMError_InvalidArg; }
 	SceneData::TGdtfDmxChannelArray channels = scMode->GetChannelsForGeometry(fGeometry);
 
 	count = channels.size();
@@ -1088,12 +1092,16 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetCountLinkedDmxCh
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetLinkedDmxChannelAt(size_t at, IGdtfDmxChannel** outChannel, IGdtfDmxMode * forMode)
 {
+	// Check Pointer
+	if ( ! fGeometry) { return kVCOMError_NotInitialized; }
+
 	// Check interface
 	CGdtfDmxModeImpl* modeInterface = static_cast<CGdtfDmxModeImpl*>(forMode);
 	if( ! modeInterface) { return kVCOMError_InvalidArg; }
 
 	// Get Array
 	SceneData::GdtfDmxModePtr 		scMode 	 = modeInterface->getPointer();
+	if( ! scMode) { return kVCOMError_InvalidArg; }
 	SceneData::TGdtfDmxChannelArray channels = scMode->GetChannelsForGeometry(fGeometry);
 
 	// Check Bound
diff --git a/src/Implementation/CGeometryReferenceImpl.cpp b/src/Implementation/CGeometryReferenceImpl.cpp
index 915a49d..4c03ae7 100644
--- a/src/Implementation/CGeometryReferenceImpl.cpp
+++ b/src/Implementation/CGeometryReferenceImpl.cpp
@@ -24,6 +24,9 @@ VectorworksMVR::CGeometryReferenceImpl::~CGeometryReferenceImpl()
 
 VectorworksMVR::VCOMError VectorworksMVR::CGeometryReferenceImpl::GetIsSymbol(bool& isSymbol)
 {
+	// Check if this is initialized
+	if ( ! fPtr) return kVCOMError_NotInitialized;
+
 	isSymbol = fIsSymbol;
 	return kVCOMError_NoError;
 }
diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 1da2d4f..0fab835 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -31,6 +31,9 @@ VectorworksMVR::CSceneObjImpl::~CSceneObjImpl()
 
 VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetType(ESceneObjType& outType)
 {
+	// Check if this is initialized
+	if ( ! fPtr) return kVCOMError_NotInitialized;
+
 	outType = fType;
 	return kVCOMError_NoError;
 }
@@ -1486,6 +1489,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetConnectionAt(size_t
 
 VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::CreateConnection(MvrString own, MvrString other, MvrUUID ToObject, IConnection** addedObj)
 {
+	// Check if this is initialized
+	if ( ! fPtr) return kVCOMError_NotInitialized;
+
 	const auto nObj = fPtr->AddConnectionObj(own, other, VWUUID(ToObject.a, ToObject.b, ToObject.c, ToObject.d));
 	
 	//---------------------------------------------------------------------------
-- 
2.43.0


From 921ce3bbee6b40ce990bffaa75f534382191934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 16/29] fix: AddGeometry of an unbound symbol definition or
 scene object reports that it is not initialized

---
 src/Implementation/CSceneObjImpl.cpp | 5 +++++
 src/Implementation/CSymDefImpl.cpp   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 0fab835..33f5721 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -239,6 +239,11 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetGeometryAt(size_t at
 
 VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::AddGeometry(const STransformMatrix& scMatrix, MvrString fileName)
 {
+	//---------------------------------------------------------------------------
+	// Check if this is initialized
+	ASSERTN(kEveryone,fPtr);
+	if( ! fPtr) return kVCOMError_NotInitialized;
+
 	//---------------------------------------------------------------------------
 	// Create the new object, and set the file name
 	SceneData::SceneDataGeometryObjPtr geometryObject = new SceneData::SceneDataGeometryObj();
diff --git a/src/Implementation/CSymDefImpl.cpp b/src/Implementation/CSymDefImpl.cpp
index 4d385db..f7f5cb7 100644
--- a/src/Implementation/CSymDefImpl.cpp
+++ b/src/Implementation/CSymDefImpl.cpp
@@ -132,6 +132,11 @@ VectorworksMVR::VCOMError VectorworksMVR::CSymDefImpl::GetIsContaingSymbolGeomte
 
 VectorworksMVR::VCOMError VectorworksMVR::CSymDefImpl::AddGeometry(const STransformMatrix& scMatrix, MvrString fileName)
 {
+	//---------------------------------------------------------------------------
+	// Check if this is initialized
+	ASSERTN(kEveryone,fPtr);
+	if( ! fPtr) return kVCOMError_NotInitialized;
+
 	//---------------------------------------------------------------------------
 	// Create the new object, and set the file name
 	SceneData::SceneDataGeometryObjPtr geometryObject = new SceneData::SceneDataGeometryObj();
-- 
2.43.0


From bc75b74f2ff72ee92d83136d83b0fbe1cd4ee31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 17/29] fix: an index equal to the count is out of bounds, and
 GetProtocolAt hands out the protocol

---
 src/Implementation/CGdtfAttribute.cpp |  2 +-
 src/Implementation/CGdtfGamut.cpp     |  2 +-
 src/Implementation/CGdtfGeometry.cpp  |  6 +++---
 src/Implementation/CSceneObjImpl.cpp  | 16 ++++++++--------
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/Implementation/CGdtfAttribute.cpp b/src/Implementation/CGdtfAttribute.cpp
index c1a3ea9..f2cd49c 100644
--- a/src/Implementation/CGdtfAttribute.cpp
+++ b/src/Implementation/CGdtfAttribute.cpp
@@ -293,7 +293,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfAttributeImpl::GetSubPhysicalUnit
 	if ( ! fAttribute) { return kVCOMError_NotInitialized; }
 	
 	// check overflow
-	if (fAttribute->GetSubPhysicalUnitArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (at >= fAttribute->GetSubPhysicalUnitArray().size()) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
diff --git a/src/Implementation/CGdtfGamut.cpp b/src/Implementation/CGdtfGamut.cpp
index b64e739..4ea2284 100644
--- a/src/Implementation/CGdtfGamut.cpp
+++ b/src/Implementation/CGdtfGamut.cpp
@@ -53,7 +53,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGamutImpl::GetPointAt(size_t at,
 	if ( ! fGamut) { return kVCOMError_NotInitialized; }
 	
 	// check overflow
-	if (fGamut->GetGamutPoints().size() < at) { return kVCOMError_OutOfBounds; }
+	if (at >= fGamut->GetGamutPoints().size()) { return kVCOMError_OutOfBounds; }
 
 	CCieColorPtr colorPtr = fGamut->GetGamutPoints()[at];
 
diff --git a/src/Implementation/CGdtfGeometry.cpp b/src/Implementation/CGdtfGeometry.cpp
index 6f437ad..cf36c6f 100644
--- a/src/Implementation/CGdtfGeometry.cpp
+++ b/src/Implementation/CGdtfGeometry.cpp
@@ -790,7 +790,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetBreakAt(size_t a
 	if ( ! ref) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (ref->GetBreakArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (at >= ref->GetBreakArray().size()) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
@@ -1518,7 +1518,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetLaserProtocolAt(
 	if ( ! laser) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (laser->GetLaserProtocolArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (at >= laser->GetLaserProtocolArray().size()) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
@@ -2141,7 +2141,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfGeometryImpl::GetPinPatchAt(size_
 	if ( ! wiringObject) { return kVCOMError_Failed; }
 	
 	// check overflow
-	if (wiringObject->GetPinPatchArray().size() < at) { return kVCOMError_OutOfBounds; }
+	if (at >= wiringObject->GetPinPatchArray().size()) { return kVCOMError_OutOfBounds; }
 	
 	
 	//---------------------------------------------------------------------------
diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 33f5721..54610a5 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1042,21 +1042,21 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 	if( ! fixture) return kVCOMError_NoFixtureObj;
 
 	// Check the psotion of the array
-	if (at > fixture->GetProtocolsArray().size() )
+	if (at >= fixture->GetProtocolsArray().size() )
 	{
 		DSTOP((kEveryone, "Array overflow"));
 		return kVCOMError_Failed;
 	}
 
-	SceneData::SceneDataProtocols protocol = fixture->GetProtocolsArray().at( at );
+	const SceneData::SceneDataProtocols& protocol = fixture->GetProtocolsArray().at( at );
 	SProtocol* pProtocol = new SProtocol;
-	pProtocol->fGeometry = protocol.GetGeometry().GetCharPtr();
-	pProtocol->fName = protocol.GetName().GetCharPtr();
+	pProtocol->fGeometry = protocol.fGeometry.GetCharPtr();
+	pProtocol->fName = protocol.fName.GetCharPtr();
 	pProtocol->fTransmision = protocol.GetTransmission();
-	pProtocol->fVersion = protocol.GetVersion().GetCharPtr();
-	pProtocol->fType = protocol.GetType().GetCharPtr();
+	pProtocol->fVersion = protocol.fVersion.GetCharPtr();
+	pProtocol->fType = protocol.fType.GetCharPtr();
 
-	outProtocol = &pProtocol;
+	*outProtocol = pProtocol;
 
 	return kVCOMError_NoError;
 }
@@ -1095,7 +1095,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetAdressAt(size_t at,
 	if( ! fixture) return kVCOMError_NoFixtureObj;
 	
 	// Check the psotion of the array
-	if (at > fixture->GetAdressesArray().size())
+	if (at >= fixture->GetAdressesArray().size())
 	{
 		DSTOP((kEveryone, "Array overflow"));
 		return kVCOMError_Failed;
-- 
2.43.0


From db42ae6333534a609991f3e18599d3baab096800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:39 +0000
Subject: [PATCH 18/29] fix: GetCRIAt and GetCRIGroupAt leave the caller's
 object alone until they succeed

---
 src/Implementation/CGdtfCRIGroup.cpp | 1 -
 src/Implementation/CGdtfFixture.cpp  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/Implementation/CGdtfCRIGroup.cpp b/src/Implementation/CGdtfCRIGroup.cpp
index 0d89f6f..2fe2630 100644
--- a/src/Implementation/CGdtfCRIGroup.cpp
+++ b/src/Implementation/CGdtfCRIGroup.cpp
@@ -48,7 +48,6 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfCRIGroupImpl::GetCRICount(size_t
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfCRIGroupImpl::GetCRIAt(size_t at, VectorworksMVR::IGdtfCRI** value)
 {
     if (!value) { return kVCOMError_InvalidArg; }
-    *value = nullptr;
 
     // Check if Set
     if (!fCRIGroup) { return kVCOMError_NotInitialized; }
diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index 30bb1cb..818dca6 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -2235,7 +2235,6 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::GetCRIGroupCount(siz
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::GetCRIGroupAt(size_t at, VectorworksMVR::IGdtfCRIGroup** value)
 {
     if (!value) { return kVCOMError_InvalidArg; }
-    *value = nullptr;
 
     // Check if Set
     if (!fFixtureObject) { return kVCOMError_NotInitialized; }
-- 
2.43.0


From 46783c3cf9eff84e739c0e60949c829bbba57c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:26 +0000
Subject: [PATCH 19/29] fix: the path of an attached file needs no completed
 read

---
 src/Implementation/CMediaRessourceVectorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Implementation/CMediaRessourceVectorImpl.cpp b/src/Implementation/CMediaRessourceVectorImpl.cpp
index 7fa782e..76429cf 100644
--- a/src/Implementation/CMediaRessourceVectorImpl.cpp
+++ b/src/Implementation/CMediaRessourceVectorImpl.cpp
@@ -1502,6 +1502,7 @@ MvrString VectorworksMVR::CMediaRessourceVectorImpl::GetAttachedFileCountAt(size
 	IFileIdentifierPtr file;
 	if(fExchangeObj.GetAttachedFileCountAt(at, file))
 	{
+		if (at >= fullPathStorage.size()) { fullPathStorage.resize(at + 1, TXString()); }
 		file->GetFileFullPath(fullPathStorage[at]);
 		return fullPathStorage[at].GetCharPtr();
 	}
-- 
2.43.0


From 7b920f083742a72e74b081345c8ca1dc9781e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:00 +0000
Subject: [PATCH 20/29] fix: reject DMX offsets that the channel cannot store

---
 src/Implementation/CGdtfDmxChannel.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Implementation/CGdtfDmxChannel.cpp b/src/Implementation/CGdtfDmxChannel.cpp
index 7653f85..f80daf5 100644
--- a/src/Implementation/CGdtfDmxChannel.cpp
+++ b/src/Implementation/CGdtfDmxChannel.cpp
@@ -168,6 +168,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxChannelImpl::SetCoarse(Sint32
 	// Check Pointer
 	if ( ! fChannel) { return kVCOMError_NotInitialized; }
 	
+	// Offsets are stored as DMX addresses
+	if (coarse < 0 || coarse > 0xFFFF) { return kVCOMError_InvalidArg; }
+	
 	fChannel->SetDmxCoarse(coarse);
 	
 	return kVCOMError_NoError;
@@ -178,6 +181,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxChannelImpl::SetFine(Sint32 fi
 	// Check Pointer
 	if ( ! fChannel) { return kVCOMError_NotInitialized; }
 	
+	// Offsets are stored as DMX addresses
+	if (fine < 0 || fine > 0xFFFF) { return kVCOMError_InvalidArg; }
+	
 	fChannel->SetDmxFine(fine);
 	
 	return kVCOMError_NoError;
@@ -188,6 +194,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxChannelImpl::SetUltra(Sint32 u
 	// Check Pointer
 	if ( ! fChannel) { return kVCOMError_NotInitialized; }
 	
+	// Offsets are stored as DMX addresses
+	if (ultra < 0 || ultra > 0xFFFF) { return kVCOMError_InvalidArg; }
+	
 	fChannel->SetDmxUltra(ultra);
 	
 	return kVCOMError_NoError;
@@ -198,6 +207,9 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfDmxChannelImpl::SetUber(Sint32 ub
 	// Check Pointer
 	if ( ! fChannel) { return kVCOMError_NotInitialized; }
 	
+	// Offsets are stored as DMX addresses
+	if (uber < 0 || uber > 0xFFFF) { return kVCOMError_InvalidArg; }
+	
 	fChannel->SetDmxUber(uber);
 	
 	return kVCOMError_NoError;
-- 
2.43.0


From 18cf87389de851e413a585c1629b83af31e18814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:00 +0000
Subject: [PATCH 21/29] fix: setting the connector type must not overwrite its
 name

---
 src/Implementation/CGdtfConnector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Implementation/CGdtfConnector.cpp b/src/Implementation/CGdtfConnector.cpp
index 69ae7d0..9ea1a32 100644
--- a/src/Implementation/CGdtfConnector.cpp
+++ b/src/Implementation/CGdtfConnector.cpp
@@ -82,7 +82,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfConnectorImpl::SetType(MvrString
 	// Check if valid
 	if(!fConnector) return kVCOMError_NotInitialized;
 
-    fConnector->SetName(type);
+    fConnector->SetType(type);
 
 	return kVCOMError_NoError;
 }
-- 
2.43.0


From 07d004a340848f9e853bf9ff0893196107e9295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:00 +0000
Subject: [PATCH 22/29] fix: IGdtfCRI::GetColorSample hands out the color
 sample

---
 src/Implementation/CGdtfCRI.cpp              | 2 +-
 src/Implementation/CGdtfCRI.h                | 2 +-
 src/Include/IMediaRessourceVectorInterface.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Implementation/CGdtfCRI.cpp b/src/Implementation/CGdtfCRI.cpp
index 2608afd..29fdb2d 100644
--- a/src/Implementation/CGdtfCRI.cpp
+++ b/src/Implementation/CGdtfCRI.cpp
@@ -13,7 +13,7 @@ VectorworksMVR::CGdtfCRIImpl::~CGdtfCRIImpl()
 {
 }
 
-VectorworksMVR::VCOMError  VectorworksMVR::CGdtfCRIImpl::GetColorSample(EGdtfColorSample outVal)
+VectorworksMVR::VCOMError  VectorworksMVR::CGdtfCRIImpl::GetColorSample(EGdtfColorSample& outVal)
 {
     // Check Data
     if (!fCRI) return kVCOMError_NotInitialized;
diff --git a/src/Implementation/CGdtfCRI.h b/src/Implementation/CGdtfCRI.h
index 13b0568..a4b3558 100644
--- a/src/Implementation/CGdtfCRI.h
+++ b/src/Implementation/CGdtfCRI.h
@@ -14,7 +14,7 @@ namespace VectorworksMVR
         virtual ~CGdtfCRIImpl();
         
         // Getter
-        virtual VCOMError VCOM_CALLTYPE     GetColorSample(EGdtfColorSample outVal);
+        virtual VCOMError VCOM_CALLTYPE     GetColorSample(EGdtfColorSample& outVal);
         virtual VCOMError VCOM_CALLTYPE     GetColorRenderingIndex(Uint8& outVal);
         // Setter
         virtual VCOMError VCOM_CALLTYPE     SetColorSample(EGdtfColorSample val);
diff --git a/src/Include/IMediaRessourceVectorInterface.h b/src/Include/IMediaRessourceVectorInterface.h
index 9a17277..223d4c5 100644
--- a/src/Include/IMediaRessourceVectorInterface.h
+++ b/src/Include/IMediaRessourceVectorInterface.h
@@ -1487,7 +1487,7 @@ class DYNAMIC_ATTRIBUTE IGdtfMacro : public IVWUnknown
     {
     public:
         // Getter
-        virtual VCOMError VCOM_CALLTYPE GetColorSample(GdtfDefines::EGdtfColorSample outVal) = 0;
+        virtual VCOMError VCOM_CALLTYPE GetColorSample(GdtfDefines::EGdtfColorSample& outVal) = 0;
         virtual VCOMError VCOM_CALLTYPE GetColorRenderingIndex(Uint8& outVal) = 0;
         // Setter
         virtual VCOMError VCOM_CALLTYPE SetColorSample(GdtfDefines::EGdtfColorSample val) = 0;
-- 
2.43.0


From bc4a79015e068c0a449d1422702be1793bba2bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 23/29] fix: hand out the 3DS and SVG buffers of a model

---
 src/GDTFManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 6d3c762..84225d9 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -1989,7 +1989,7 @@ EGdtfModel_PrimitiveType GdtfModel::GetPrimitiveType() const
 
 void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
 {
-	if(fBuffer3DS)
+	if(!fBuffer3DS)
 	{
 		return;
 	}
@@ -2005,7 +2005,7 @@ void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
 
 void GdtfModel::GetBufferSVG(void** bufferToCopy, size_t& length)
 {
-	if(fBufferSVG)
+	if(!fBufferSVG)
 	{
 		return;
 	}
-- 
2.43.0


From 556499271686be6a215e9ebb37f555910dbdb69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 24/29] fix: a mapping definition without a source can be saved

---
 src/SceneDataExchange.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index b231634..970c36d 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -811,7 +811,7 @@ void SceneDataMappingDefinitionObj::OnPrintToFile(IXMLFileNodePtr pNode, SceneDa
 		pSizeYNode->SetNodeValue(GdtfConverter::ConvertInteger(fSizeY));
 	}
 
-	fSource->PrintToFile(pNode, exchange);
+	if (fSource) { fSource->PrintToFile(pNode, exchange); }
 
 	IXMLFileNodePtr pScaleHandlingNode;
 	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_Val_MappingDefinitionScaleHandling, &pScaleHandlingNode)))
-- 
2.43.0


From 2a9acf654366c5f0394e333e19b5684e47d8fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:16 +0000
Subject: [PATCH 25/29] fix: TXString::atoi64 reads the whole range of a 64 bit
 integer

---
 src/GSString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 05cbb36..3ddf11a 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -2027,7 +2027,7 @@ Sint32 TXString::atoi() const
 // number is returned. e.g. " 123 123 " returns 123.
 Sint64 TXString::atoi64() const
 {
-	return ::atoi(*this);
+	return ::atoll(*this);
 }
 
 //=======================================================================================
-- 
2.43.0


From 5edbca3545a9c00bbbce2c311ad9411987593364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:25 +0000
Subject: [PATCH 26/29] fix: a DMX address outside the supported range is not
 wrapped to another address

---
 src/XmlFileHelper.cpp | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 8faca3a..3fe2663 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -611,36 +611,31 @@ bool SceneData::GdtfConverter::ConvertDMXAdress(const TXString& value, const IXM
 
 	ptrdiff_t dotPos = value.Find('.');
 
-	bool error = false;
+	const Sint64 maxAddress = (DMXAddress)-1;
+	Sint64 absolute = 0;	// Stays 0 when the text is no valid address
 
-	if(dotPos > 0){
-		Uint16 universe = value.Left(dotPos).atoi();
-		Uint16 address  = value.Right(value.GetLength() - dotPos - 1).atoi();
+	if(dotPos >= 0){
+		Sint64 universe = value.Left(dotPos).atoi64();
+		Sint64 address  = value.Right(value.GetLength() - dotPos - 1).atoi64();
 
-		if (universe <= 0 || address <= 0 || address > 512)	
+		if (universe > 0 && universe <= maxAddress && address > 0 && address <= 512)
 		{
-	    	ASSERTN(kEveryone, false);
-			error = true;
+			absolute = (universe - 1) * 512 + address;
 		}
-
-		intValue = (universe - 1) * 512 + address;
-
 	}else{
-		intValue = value.atoi();
-    	ASSERTN(kEveryone, intValue > 0);
-
-		if (intValue <= 0)	
-		{
-			error = true;
-		}
+		absolute = value.atoi64();
 	}
 
-	if(error){
+	if(absolute <= 0 || absolute > maxAddress){
+		ASSERTN(kEveryone, false);
+		intValue = 0;
+
 		GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_DmxAdressHasWrongValue, node);
         SceneData::GdtfFixture::AddError(error); 
         return false; 
 	}
 
+	intValue = (DMXAddress)absolute;
     return true;
 }
 
-- 
2.43.0


From a0c1a9c1b216c1794fd371d30941e26dfc1f2869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:43 +0000
Subject: [PATCH 27/29] fix: IsCompleteNumber does not hand characters outside
 the range of isdigit to it

---
 src/GSString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 3ddf11a..0aa3f3f 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -2063,7 +2063,7 @@ TXString& TXString::ftoa(Real64 value, Sint32 precision)
 bool TXString::IsCompleteNumber()
 {
 	auto it = stdUStr.begin();
-    while (it != stdUStr.end() && std::isdigit(*it)) ++it;
+    while (it != stdUStr.end() && *it >= '0' && *it <= '9') ++it;
     return !stdUStr.empty() && it == stdUStr.end();
 
 }
-- 
2.43.0


From 50d46d961967dcfe3e8c61c2be23f5cba53c106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:43 +0000
Subject: [PATCH 28/29] fix: a DMX value that does not fit the bytes it is
 given in is an error

---
 src/XmlFileHelper.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 3fe2663..527cc6f 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -714,6 +714,20 @@ bool SceneData::GdtfConverter::ConvertDMXValue(const TXString& strValue, const I
 		byteSpecifier 	= 1;
 	}
 
+	// The value has to fit the number of bytes it is given in
+	if(byteSpecifier < 1 || byteSpecifier > 4)
+	{
+		intValue = 0;
+		return false;
+	}
+	if(dmxValueRaw > GetChannelMaxDmx((EGdtfChannelBitResolution)byteSpecifier))
+	{
+		GdtfParsingError error (GdtfDefines::EGdtfParsingError::eValueError_DmxValueHasWrongValue, node);
+		SceneData::GdtfFixture::AddError(error);
+		intValue = GetChannelMaxDmx(chanlReso);
+		return false;
+	}
+
 	// Check if the ByteSpecifier is different to the ChannelResolution.
 	intValue = dmxValueRaw;
 
@@ -778,9 +792,7 @@ bool SceneData::GdtfConverter::ConvertDMXValue(const TXString & strValue, const
 		return true;
 	}
 
-	ConvertDMXValue(strValue, node, chanlReso, intValue);
-
-	return true;
+	return ConvertDMXValue(strValue, node, chanlReso, intValue);
 }
 
 /*static*/ TXString GdtfConverter::ConvertPrimitiveType(EGdtfModel_PrimitiveType value)
-- 
2.43.0


From 0a991f328fb75e0f51b7b369852de41a2deb8de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:39 +0000
Subject: [PATCH 29/29] fix: SHA-256 padding forms an address outside its
 buffer when the length goes into a second block

---
 src/sha256/sha256.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha256/sha256.cpp b/src/sha256/sha256.cpp
index 2c3d9af..9dbc5d6 100644
--- a/src/sha256/sha256.cpp
+++ b/src/sha256/sha256.cpp
@@ -327,7 +327,7 @@ void SHA256::processBuffer()
   if (paddedLength < BlockSize)
     addLength = m_buffer + paddedLength;
   else
-    addLength = extra + paddedLength - BlockSize;
+    addLength = extra + (paddedLength - BlockSize);
 
   // must be big endian
   *addLength++ = (unsigned char)((msgBits >> 56) & 0xFF);
-- 
2.43.0

