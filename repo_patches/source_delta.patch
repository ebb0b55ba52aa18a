From 20c96ce3529100307d930f8479031b044ba69832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:32 +0000
Subject: [PATCH 01/38] fix: ObjectString::Sub and Remove reject a negative or
 overflowing count

---
 Release/Vlpp.h          | 4 ++--
 Source/Strings/String.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 5ba89a0..fa48fcb 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -7045,7 +7045,7 @@ namespace vl
 		ObjectString<T> Sub(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<=length, L"ObjectString<T>::Sub(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
 			return SubUnsafe(index, count);
 		}
 
@@ -7063,7 +7063,7 @@ namespace vl
 		ObjectString<T> Remove(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<length, L"ObjectString<T>::Remove(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
 			return ReplaceUnsafe(ObjectString<T>(), index, count);
 		}
 
diff --git a/Source/Strings/String.h b/Source/Strings/String.h
index 3e0f206..19d0843 100644
--- a/Source/Strings/String.h
+++ b/Source/Strings/String.h
@@ -462,7 +462,7 @@ namespace vl
 		ObjectString<T> Sub(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<=length, L"ObjectString<T>::Sub(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
 			return SubUnsafe(index, count);
 		}
 
@@ -480,7 +480,7 @@ namespace vl
 		ObjectString<T> Remove(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<length, L"ObjectString<T>::Remove(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
 			return ReplaceUnsafe(ObjectString<T>(), index, count);
 		}
 
-- 
2.43.0


From 5889e499ccf535922647df02b2bc75a28c9058b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:09 +0000
Subject: [PATCH 02/38] fix: UTF-8 decoding rejects encoded surrogates, the
 check was unreachable

---
 Release/Vlpp.cpp              | 10 ++++------
 Source/Strings/Conversion.cpp | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/Release/Vlpp.cpp b/Release/Vlpp.cpp
index 1ca53f0..8f4bd21 100644
--- a/Release/Vlpp.cpp
+++ b/Release/Vlpp.cpp
@@ -515,7 +515,7 @@ UtfConversion<char8_t>
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00001111U) << 12) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U));
-				return 3;
+				return IsInvalid(dest) ? -1 : 3;
 			}
 			else if (cs[0] < 0b11111000U)
 			{
@@ -524,7 +524,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U));
-				return 4;
+				return IsInvalid(dest) ? -1 : 4;
 			}
 			else if (cs[0] < 0b11111100U)
 			{
@@ -534,7 +534,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U));
-				return 5;
+				return IsInvalid(dest) ? -1 : 5;
 			}
 			else
 			{
@@ -545,10 +545,8 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[5]) & 0b00111111U));
-				return 6;
+				return IsInvalid(dest) ? -1 : 6;
 			}
-			if (IsInvalid(dest)) return -1;
-			return 1;
 		}
 
 /***********************************************************************
diff --git a/Source/Strings/Conversion.cpp b/Source/Strings/Conversion.cpp
index 7675ad1..a712e0d 100644
--- a/Source/Strings/Conversion.cpp
+++ b/Source/Strings/Conversion.cpp
@@ -139,7 +139,7 @@ UtfConversion<char8_t>
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00001111U) << 12) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U));
-				return 3;
+				return IsInvalid(dest) ? -1 : 3;
 			}
 			else if (cs[0] < 0b11111000U)
 			{
@@ -148,7 +148,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U));
-				return 4;
+				return IsInvalid(dest) ? -1 : 4;
 			}
 			else if (cs[0] < 0b11111100U)
 			{
@@ -158,7 +158,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U));
-				return 5;
+				return IsInvalid(dest) ? -1 : 5;
 			}
 			else
 			{
@@ -169,10 +169,8 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[5]) & 0b00111111U));
-				return 6;
+				return IsInvalid(dest) ? -1 : 6;
 			}
-			if (IsInvalid(dest)) return -1;
-			return 1;
 		}
 
 /***********************************************************************
-- 
2.43.0


From 45aad91e55c512f1b4706ed1a64f323b4bada457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:20 +0000
Subject: [PATCH 03/38] fix: wlower and wupper no longer truncate wide
 characters to char

---
 Release/Vlpp.cpp          | 4 ++--
 Source/Strings/String.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Release/Vlpp.cpp b/Release/Vlpp.cpp
index 8f4bd21..52b81ed 100644
--- a/Release/Vlpp.cpp
+++ b/Release/Vlpp.cpp
@@ -1006,7 +1006,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towlower(*buffer);
+			*buffer=(wchar_t)towlower(*buffer);
 			buffer++;
 		}
 	}
@@ -1015,7 +1015,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towupper(*buffer);
+			*buffer=(wchar_t)towupper(*buffer);
 			buffer++;
 		}
 	}
diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index f1f7204..5fa2a82 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -102,7 +102,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towlower(*buffer);
+			*buffer=(wchar_t)towlower(*buffer);
 			buffer++;
 		}
 	}
@@ -111,7 +111,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towupper(*buffer);
+			*buffer=(wchar_t)towupper(*buffer);
 			buffer++;
 		}
 	}
-- 
2.43.0


From 40a18ff270ea04cfc2160b940a177052f59b8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:39 +0000
Subject: [PATCH 04/38] fix: RemoveRange rejects a negative count instead of
 corrupting the list

---
 Release/Vlpp.h            | 2 +-
 Source/Collections/List.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index fa48fcb..9fd1d5a 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -2116,7 +2116,7 @@ ListBase
 			{
 				vint previousCount = this->count;
 				CHECK_ERROR(index >= 0 && index <= this->count, L"ListBase<T>::RemoveRange(vint, vint)#Argument index not in range.");
-				CHECK_ERROR(index + _count >= 0 && index + _count <= this->count, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
+				CHECK_ERROR(_count >= 0 && _count <= this->count - index, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
 				memory_management::CallMoveAssignmentsOverlapped(&this->buffer[index], &this->buffer[index + _count], this->count - index - _count);
 				this->count -= _count;
 				memory_management::ReleaseUnnecessaryBuffer(this->buffer, this->capacity, previousCount, this->count);
diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index fb6d43b..d46f7c2 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -522,7 +522,7 @@ ListBase
 			{
 				vint previousCount = this->count;
 				CHECK_ERROR(index >= 0 && index <= this->count, L"ListBase<T>::RemoveRange(vint, vint)#Argument index not in range.");
-				CHECK_ERROR(index + _count >= 0 && index + _count <= this->count, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
+				CHECK_ERROR(_count >= 0 && _count <= this->count - index, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
 				memory_management::CallMoveAssignmentsOverlapped(&this->buffer[index], &this->buffer[index + _count], this->count - index - _count);
 				this->count -= _count;
 				memory_management::ReleaseUnnecessaryBuffer(this->buffer, this->capacity, previousCount, this->count);
-- 
2.43.0


From fa960311929c76e4d230bc844e723ff53e1cc41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:43 +0000
Subject: [PATCH 05/38] fix: adding an element of a list to the list itself no
 longer reads freed or moved memory

---
 Release/Vlpp.h            | 10 ++++++++++
 Source/Collections/List.h | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 9fd1d5a..532d962 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -2199,6 +2199,11 @@ List
 			vint Insert(vint index, const T& item)
 			{
 				CHECK_ERROR(index >= 0 && index <= this->count, L"List<T>::Insert(vint, const T&)#Argument index not in range.");
+				if (this->buffer <= &item && &item < this->buffer + this->count)
+				{
+					// the argument is an element of this list, it does not survive making room for the new one
+					return Insert(index, T(item));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
 				return index;
@@ -2323,6 +2328,11 @@ SortedList
 			vint Insert(vint index, const T& item)
 			{
 				bool uninitialized = false;
+				if (this->buffer <= &item && &item < this->buffer + this->count)
+				{
+					// the argument is an element of this list, it does not survive making room for the new one
+					return Insert(index, T(item));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
 				return index;
diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index d46f7c2..407d3d0 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -605,6 +605,11 @@ List
 			vint Insert(vint index, const T& item)
 			{
 				CHECK_ERROR(index >= 0 && index <= this->count, L"List<T>::Insert(vint, const T&)#Argument index not in range.");
+				if (this->buffer <= &item && &item < this->buffer + this->count)
+				{
+					// the argument is an element of this list, it does not survive making room for the new one
+					return Insert(index, T(item));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
 				return index;
@@ -729,6 +734,11 @@ SortedList
 			vint Insert(vint index, const T& item)
 			{
 				bool uninitialized = false;
+				if (this->buffer <= &item && &item < this->buffer + this->count)
+				{
+					// the argument is an element of this list, it does not survive making room for the new one
+					return Insert(index, T(item));
+				}
 				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
 				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
 				return index;
-- 
2.43.0


From 75eb6744bc7c0497eb432f3fc6162987e0b969eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:48 +0000
Subject: [PATCH 06/38] fix: copying a SortedList no longer empties the list it
 is copied from

---
 Release/Vlpp.h            | 5 ++++-
 Source/Collections/List.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 532d962..d366174 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -2383,8 +2383,11 @@ SortedList
 			SortedList<T>& operator=(SortedList<T> && _move) = default;
 
 			SortedList(const SortedList<T>&xs)
-				: ListBase<T>(std::move(const_cast<ListBase<T>&>(static_cast<const ListBase<T>&>(xs))))
 			{
+				this->buffer = memory_management::AllocateBuffer<T>(xs.count);
+				memory_management::CallCopyCtors(this->buffer, xs.buffer, xs.count);
+				this->count = xs.count;
+				this->capacity = xs.count;
 			}
 
 			/// <summary>Test does the list contain a value or not.</summary>
diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index 407d3d0..84e458b 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -789,8 +789,11 @@ SortedList
 			SortedList<T>& operator=(SortedList<T> && _move) = default;
 
 			SortedList(const SortedList<T>&xs)
-				: ListBase<T>(std::move(const_cast<ListBase<T>&>(static_cast<const ListBase<T>&>(xs))))
 			{
+				this->buffer = memory_management::AllocateBuffer<T>(xs.count);
+				memory_management::CallCopyCtors(this->buffer, xs.buffer, xs.count);
+				this->count = xs.count;
+				this->capacity = xs.count;
 			}
 
 			/// <summary>Test does the list contain a value or not.</summary>
-- 
2.43.0


From 15601ba79a126572a8cb548ec176ffdad3e3a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:52 +0000
Subject: [PATCH 07/38] fix: SortedList finds the first of several equal
 elements, as documented

---
 Release/Vlpp.h            | 7 +++++--
 Source/Collections/List.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index d366174..c2145a0 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -2299,6 +2299,7 @@ SortedList
 			{
 				vint start = 0;
 				vint end = this->count - 1;
+				vint found = -1;
 				index = -1;
 				while (start <= end)
 				{
@@ -2319,10 +2320,12 @@ SortedList
 					}
 					else
 					{
-						return index;
+						found = index;
+						end = index - 1;
 					}
 				}
-				return -1;
+				if (found != -1) index = found;
+				return found;
 			}
 
 			vint Insert(vint index, const T& item)
diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index 84e458b..da54cfa 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -705,6 +705,7 @@ SortedList
 			{
 				vint start = 0;
 				vint end = this->count - 1;
+				vint found = -1;
 				index = -1;
 				while (start <= end)
 				{
@@ -725,10 +726,12 @@ SortedList
 					}
 					else
 					{
-						return index;
+						found = index;
+						end = index - 1;
 					}
 				}
-				return -1;
+				if (found != -1) index = found;
+				return found;
 			}
 
 			vint Insert(vint index, const T& item)
-- 
2.43.0


From 63fd24b27fe43cda173b7fae73afc3ee2b52a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:25 +0000
Subject: [PATCH 08/38] fix: Group::Remove(key, value) reports whether the
 value was removed, as documented

---
 Release/Vlpp.h                  | 4 ++--
 Source/Collections/Dictionary.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index c2145a0..31401ce 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -3186,14 +3186,14 @@ namespace vl
 				if(index!=-1)
 				{
 					auto target=values[index];
-					target->Remove(value);
+					bool removed=target->Remove(value);
 					if(target->Count()==0)
 					{
 						keys.RemoveAt(index);
 						values.RemoveAt(index);
 						delete target;
 					}
-					return true;
+					return removed;
 				}
 				else
 				{
diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 11cac3b..d0a6fd8 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -578,14 +578,14 @@ namespace vl
 				if(index!=-1)
 				{
 					auto target=values[index];
-					target->Remove(value);
+					bool removed=target->Remove(value);
 					if(target->Count()==0)
 					{
 						keys.RemoveAt(index);
 						values.RemoveAt(index);
 						delete target;
 					}
-					return true;
+					return removed;
 				}
 				else
 				{
-- 
2.43.0


From 89a9cbb09cd11fa7b99a3f76ae90bf2bc1efcbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:28 +0000
Subject: [PATCH 09/38] fix: enumerators of Dictionary and Group can be reset,
 and keep their value when cloned

---
 Release/Vlpp.h                  | 8 +++++---
 Source/Collections/Dictionary.h | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 31401ce..8ac83e6 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -2643,7 +2643,7 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if(index<container->Count())
+					if(index>=0 && index<container->Count())
 					{
 						current = { container->Keys().Get(index),container->Values().Get(index) };
 					}
@@ -2653,6 +2653,7 @@ namespace vl
 				{
 					container=_container;
 					index=_index;
+					UpdateCurrent();
 				}
 				
 				IEnumerator<KVPair>* Clone()const override
@@ -2896,10 +2897,10 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if (keyIndex < container->Count())
+					if (keyIndex >= 0 && keyIndex < container->Count())
 					{
 						const ValueContainer& values = container->GetByIndex(keyIndex);
-						if (valueIndex < values.Count())
+						if (valueIndex >= 0 && valueIndex < values.Count())
 						{
 							current = { container->Keys().Get(keyIndex) ,values.Get(valueIndex) };
 						}
@@ -2911,6 +2912,7 @@ namespace vl
 					container=_container;
 					keyIndex=_keyIndex;
 					valueIndex=_valueIndex;
+					UpdateCurrent();
 				}
 				
 				IEnumerator<KVPair>* Clone()const override
diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index d0a6fd8..52d0848 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -35,7 +35,7 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if(index<container->Count())
+					if(index>=0 && index<container->Count())
 					{
 						current = { container->Keys().Get(index),container->Values().Get(index) };
 					}
@@ -45,6 +45,7 @@ namespace vl
 				{
 					container=_container;
 					index=_index;
+					UpdateCurrent();
 				}
 				
 				IEnumerator<KVPair>* Clone()const override
@@ -288,10 +289,10 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if (keyIndex < container->Count())
+					if (keyIndex >= 0 && keyIndex < container->Count())
 					{
 						const ValueContainer& values = container->GetByIndex(keyIndex);
-						if (valueIndex < values.Count())
+						if (valueIndex >= 0 && valueIndex < values.Count())
 						{
 							current = { container->Keys().Get(keyIndex) ,values.Get(valueIndex) };
 						}
@@ -303,6 +304,7 @@ namespace vl
 					container=_container;
 					keyIndex=_keyIndex;
 					valueIndex=_valueIndex;
+					UpdateCurrent();
 				}
 				
 				IEnumerator<KVPair>* Clone()const override
-- 
2.43.0


From 46911458a7e54d5ae48b0747a7780bfec1ccdcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:24 +0000
Subject: [PATCH 10/38] fix: Ptr::Detach of a shared object no longer releases
 it a second time

---
 Release/Vlpp.h              | 1 +
 Source/Primitives/Pointer.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 8ac83e6..4d14d1c 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -1058,6 +1058,7 @@ Ptr
 		{
 			auto detached = reference;
 			Dec(false);
+			SetEmptyNoIncDec();
 			return detached;
 		}
 
diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 2e0e034..d8d821c 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -212,6 +212,7 @@ Ptr
 		{
 			auto detached = reference;
 			Dec(false);
+			SetEmptyNoIncDec();
 			return detached;
 		}
 
-- 
2.43.0


From 324667f0d67eac47c7e75aca92bfd6a8b32404e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:30 +0000
Subject: [PATCH 11/38] fix: assigning a Ptr or ComPtr owned by the object
 being released no longer reads freed memory

---
 Release/Vlpp.h              | 12 ++++++++----
 Source/Primitives/Pointer.h | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 4d14d1c..6bba648 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -1089,7 +1089,8 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// the object being released could own the argument
+				Ptr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				originalReference = pointer.originalReference;
@@ -1106,7 +1107,8 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// the object being released could own the argument
+				Ptr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				originalReference = pointer.originalReference;
@@ -1273,7 +1275,8 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// the object being released could own the argument
+				ComPtr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				Inc();
@@ -1285,7 +1288,8 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// the object being released could own the argument
+				ComPtr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				pointer.SetEmpty();
diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index d8d821c..56a742e 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -243,7 +243,8 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// the object being released could own the argument
+				Ptr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				originalReference = pointer.originalReference;
@@ -260,7 +261,8 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// the object being released could own the argument
+				Ptr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				originalReference = pointer.originalReference;
@@ -427,7 +429,8 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// the object being released could own the argument
+				ComPtr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				Inc();
@@ -439,7 +442,8 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// the object being released could own the argument
+				ComPtr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				pointer.SetEmpty();
-- 
2.43.0


From b5ad6f6f9a1562600948b959d1aad73dd95e541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:32 +0000
Subject: [PATCH 12/38] fix: all handlers of an Event receive the arguments,
 not only the first one

---
 Release/Vlpp.h            | 2 +-
 Source/Primitives/Event.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 6bba648..98e084e 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -5560,7 +5560,7 @@ namespace vl
 		{
 			for(vint i = 0; i < handlers.Count(); i++)
 			{
-				handlers[i]->function(std::forward<TArgs2&&>(args)...);
+				handlers[i]->function(args...);
 			}
 		}
 	};
diff --git a/Source/Primitives/Event.h b/Source/Primitives/Event.h
index 7dfc3ed..caaf7ea 100644
--- a/Source/Primitives/Event.h
+++ b/Source/Primitives/Event.h
@@ -98,7 +98,7 @@ namespace vl
 		{
 			for(vint i = 0; i < handlers.Count(); i++)
 			{
-				handlers[i]->function(std::forward<TArgs2&&>(args)...);
+				handlers[i]->function(args...);
 			}
 		}
 	};
-- 
2.43.0


From d528d67b8fbfa8eaac5b4af99e916f210f0966eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:34 +0000
Subject: [PATCH 13/38] fix: Variant aligns its buffer instead of only the
 object containing it

---
 Release/Vlpp.h              | 4 ++--
 Source/Primitives/Variant.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 98e084e..cd6fad8 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -6335,7 +6335,7 @@ namespace vl
 	};
 
 	template<VariantElementType ...TElements>
-	class alignas(TElements...) Variant
+	class Variant
 	{
 	public:
 		template<VariantElementType ...UElements>
@@ -6351,7 +6351,7 @@ namespace vl
 
 		static constexpr std::size_t	MaxSize = variant_internal::MaxOf(sizeof(TElements)...);
 		vint							index = -1;
-		char							buffer[MaxSize];
+		alignas(TElements...) char buffer[MaxSize];
 
 	public:
 		Variant()
diff --git a/Source/Primitives/Variant.h b/Source/Primitives/Variant.h
index 2cfe3ae..42b6aa6 100644
--- a/Source/Primitives/Variant.h
+++ b/Source/Primitives/Variant.h
@@ -259,7 +259,7 @@ namespace vl
 	};
 
 	template<VariantElementType ...TElements>
-	class alignas(TElements...) Variant
+	class Variant
 	{
 	public:
 		template<VariantElementType ...UElements>
@@ -275,7 +275,7 @@ namespace vl
 
 		static constexpr std::size_t	MaxSize = variant_internal::MaxOf(sizeof(TElements)...);
 		vint							index = -1;
-		char							buffer[MaxSize];
+		alignas(TElements...) char buffer[MaxSize];
 
 	public:
 		Variant()
-- 
2.43.0


From e4749c40e9a516aa7c6d81b869caba89ca95418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:38 +0000
Subject: [PATCH 14/38] fix: an enumerator of Skip is at -1 before its first
 element, so that Take(0) after Skip is empty

---
 Release/Vlpp.h                         | 2 +-
 Source/Collections/OperationSequence.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index cd6fad8..0c3db3b 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -4101,7 +4101,7 @@ Skip
 
 			vint Index()const override
 			{
-				return enumerator->Index()-count;
+				return skipped?enumerator->Index()-count:-1;
 			}
 
 			bool Next()override
diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index b0a1b4b..12f83dd 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -105,7 +105,7 @@ Skip
 
 			vint Index()const override
 			{
-				return enumerator->Index()-count;
+				return skipped?enumerator->Index()-count:-1;
 			}
 
 			bool Next()override
-- 
2.43.0


From b0b0eccaa654c0e71cf344624bc699221eed850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:32 +0000
Subject: [PATCH 15/38] fix: conversions between local and UTC time are no
 longer off by the daylight saving hour

---
 Release/Vlpp.Linux.cpp               | 6 +++++-
 Source/Primitives/DateTime.Linux.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/Release/Vlpp.Linux.cpp b/Release/Vlpp.Linux.cpp
index c194c3f..95d3927 100644
--- a/Release/Vlpp.Linux.cpp
+++ b/Release/Vlpp.Linux.cpp
@@ -159,6 +159,7 @@ DateTime
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
 			tm* timeinfo = gmtime(&tv.tv_sec);
+			timeinfo->tm_isdst = -1;
 			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
 		}
 
@@ -169,6 +170,7 @@ DateTime
 			OSInternalToTime(osInternal, timer, milliseconds);
 
 			tm* timeinfo = gmtime(&timer);
+			timeinfo->tm_isdst = -1;
 			return ConvertTMTToOSInternal(timeinfo, milliseconds);
 		}
 
@@ -179,7 +181,9 @@ DateTime
 			OSInternalToTime(osInternal, timer, milliseconds);
 
 			time_t localTimer = mktime(localtime(&timer));
-			time_t utcTimer = mktime(gmtime(&timer));
+			tm* timeinfo = gmtime(&timer);
+			timeinfo->tm_isdst = -1;
+			time_t utcTimer = mktime(timeinfo);
 			timer += localTimer - utcTimer;
 
 			TimeToOSInternal(timer, milliseconds, osInternal);
diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index 8cd4277..c14f003 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -98,6 +98,7 @@ DateTime
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
 			tm* timeinfo = gmtime(&tv.tv_sec);
+			timeinfo->tm_isdst = -1;
 			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
 		}
 
@@ -108,6 +109,7 @@ DateTime
 			OSInternalToTime(osInternal, timer, milliseconds);
 
 			tm* timeinfo = gmtime(&timer);
+			timeinfo->tm_isdst = -1;
 			return ConvertTMTToOSInternal(timeinfo, milliseconds);
 		}
 
@@ -118,7 +120,9 @@ DateTime
 			OSInternalToTime(osInternal, timer, milliseconds);
 
 			time_t localTimer = mktime(localtime(&timer));
-			time_t utcTimer = mktime(gmtime(&timer));
+			tm* timeinfo = gmtime(&timer);
+			timeinfo->tm_isdst = -1;
+			time_t utcTimer = mktime(timeinfo);
 			timer += localTimer - utcTimer;
 
 			TimeToOSInternal(timer, milliseconds, osInternal);
-- 
2.43.0


From 996d724f5a169b535136e421dc460c725fa4a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:34 +0000
Subject: [PATCH 16/38] fix: a DateTime before 1970 can be rebuilt from
 osInternal and sorts before later ones

---
 Release/Vlpp.Linux.cpp               | 6 ++++--
 Release/Vlpp.h                       | 3 ++-
 Source/Primitives/DateTime.Linux.cpp | 6 ++++--
 Source/Primitives/DateTime.h         | 3 ++-
 4 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/Release/Vlpp.Linux.cpp b/Release/Vlpp.Linux.cpp
index 95d3927..0525a2e 100644
--- a/Release/Vlpp.Linux.cpp
+++ b/Release/Vlpp.Linux.cpp
@@ -91,8 +91,10 @@ DateTime
 
 		static void OSInternalToTime(vuint64_t osInternal, time_t& timer, vint& milliseconds)
 		{
-			timer = (time_t)(osInternal / 1000);
-			milliseconds = (vint)(osInternal % 1000);
+			// before 1970, osInternal is a negative number in two's complement
+			vint64_t signedInternal = (vint64_t)osInternal;
+			milliseconds = (vint)((signedInternal % 1000 + 1000) % 1000);
+			timer = (time_t)((signedInternal - milliseconds) / 1000);
 		}
 
 		static vuint64_t ConvertTMTToOSInternal(tm* timeinfo, vint milliseconds)
diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 0c3db3b..51c92eb 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -573,7 +573,8 @@ Date and Time
 
 		std::strong_ordering operator<=>(const DateTime& value) const
 		{
-			return osInternal <=> value.osInternal;
+			// in Linux and macOS, it is negative before 1970
+			return (vint64_t)osInternal <=> (vint64_t)value.osInternal;
 		}
 
 		bool operator==(const DateTime& value) const
diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index c14f003..a63e87d 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -30,8 +30,10 @@ DateTime
 
 		static void OSInternalToTime(vuint64_t osInternal, time_t& timer, vint& milliseconds)
 		{
-			timer = (time_t)(osInternal / 1000);
-			milliseconds = (vint)(osInternal % 1000);
+			// before 1970, osInternal is a negative number in two's complement
+			vint64_t signedInternal = (vint64_t)osInternal;
+			milliseconds = (vint)((signedInternal % 1000 + 1000) % 1000);
+			timer = (time_t)((signedInternal - milliseconds) / 1000);
 		}
 
 		static vuint64_t ConvertTMTToOSInternal(tm* timeinfo, vint milliseconds)
diff --git a/Source/Primitives/DateTime.h b/Source/Primitives/DateTime.h
index 05266b7..8b01f90 100644
--- a/Source/Primitives/DateTime.h
+++ b/Source/Primitives/DateTime.h
@@ -92,7 +92,8 @@ Date and Time
 
 		std::strong_ordering operator<=>(const DateTime& value) const
 		{
-			return osInternal <=> value.osInternal;
+			// in Linux and macOS, it is negative before 1970
+			return (vint64_t)osInternal <=> (vint64_t)value.osInternal;
 		}
 
 		bool operator==(const DateTime& value) const
-- 
2.43.0


From 169e2a1a1476895dd613fa40950eec825c15ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:24 +0000
Subject: [PATCH 17/38] fix: resetting a Ptr or ComPtr owned by the object
 being released no longer writes freed memory

---
 Release/Vlpp.h              | 11 ++++++-----
 Source/Primitives/Pointer.h | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 51c92eb..5f086e7 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -1078,8 +1078,8 @@ Ptr
 		/// <param name="pointer">The nullptr.</param>
 		Ptr<T>& operator=(std::nullptr_t)
 		{
-			Dec();
-			SetEmptyNoIncDec();
+			// the object being released could own this pointer
+			Ptr<T> released(std::move(*this));
 			return *this;
 		}
 
@@ -1252,14 +1252,15 @@ ComPtr
 
 		ComPtr<T>& operator=(std::nullptr_t)
 		{
-			Dec();
-			SetEmpty();
+			// the object being released could own this pointer
+			ComPtr<T> released(std::move(*this));
 			return *this;
 		}
 
 		ComPtr<T>& operator=(T* pointer)
 		{
-			Dec();
+			// the object being released could own this pointer
+			ComPtr<T> released(std::move(*this));
 			if (pointer)
 			{
 				counter = new atomic_vint(1);
diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 56a742e..20b9320 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -231,8 +231,8 @@ Ptr
 		/// <param name="pointer">The nullptr.</param>
 		Ptr<T>& operator=(std::nullptr_t)
 		{
-			Dec();
-			SetEmptyNoIncDec();
+			// the object being released could own this pointer
+			Ptr<T> released(std::move(*this));
 			return *this;
 		}
 
@@ -405,14 +405,15 @@ ComPtr
 
 		ComPtr<T>& operator=(std::nullptr_t)
 		{
-			Dec();
-			SetEmpty();
+			// the object being released could own this pointer
+			ComPtr<T> released(std::move(*this));
 			return *this;
 		}
 
 		ComPtr<T>& operator=(T* pointer)
 		{
-			Dec();
+			// the object being released could own this pointer
+			ComPtr<T> released(std::move(*this));
 			if (pointer)
 			{
 				counter = new atomic_vint(1);
-- 
2.43.0


From 627b27eafb787234168efeb729bcb5a5227c558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:26 +0000
Subject: [PATCH 18/38] fix: a paragraph of LoremIpsum always ends with a
 period, as documented

---
 Release/Vlpp.cpp              | 2 +-
 Source/Strings/LoremIpsum.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Release/Vlpp.cpp b/Release/Vlpp.cpp
index 52b81ed..f9ef123 100644
--- a/Release/Vlpp.cpp
+++ b/Release/Vlpp.cpp
@@ -884,7 +884,7 @@ namespace vl
 			}
 
 			result += LoremIpsum(length, casing);
-			if (comma == 0)
+			if (comma == 0 || result.Length() + 2 >= bestLength)
 			{
 				result += L".";
 				break;
diff --git a/Source/Strings/LoremIpsum.cpp b/Source/Strings/LoremIpsum.cpp
index 8e8d555..5b0ec83 100644
--- a/Source/Strings/LoremIpsum.cpp
+++ b/Source/Strings/LoremIpsum.cpp
@@ -140,7 +140,7 @@ namespace vl
 			}
 
 			result += LoremIpsum(length, casing);
-			if (comma == 0)
+			if (comma == 0 || result.Length() + 2 >= bestLength)
 			{
 				result += L".";
 				break;
-- 
2.43.0


From e6381f3d099e6878cfbaa3970891a4c6f162ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:48 +0000
Subject: [PATCH 19/38] fix: a paragraph of LoremIpsum no longer ends with an
 empty sentence

---
 Release/Vlpp.cpp              | 2 +-
 Source/Strings/LoremIpsum.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Release/Vlpp.cpp b/Release/Vlpp.cpp
index f9ef123..68283a2 100644
--- a/Release/Vlpp.cpp
+++ b/Release/Vlpp.cpp
@@ -884,7 +884,7 @@ namespace vl
 			}
 
 			result += LoremIpsum(length, casing);
-			if (comma == 0 || result.Length() + 2 >= bestLength)
+			if (comma == 0 || result.Length() + 3 >= bestLength)
 			{
 				result += L".";
 				break;
diff --git a/Source/Strings/LoremIpsum.cpp b/Source/Strings/LoremIpsum.cpp
index 5b0ec83..6bf08de 100644
--- a/Source/Strings/LoremIpsum.cpp
+++ b/Source/Strings/LoremIpsum.cpp
@@ -140,7 +140,7 @@ namespace vl
 			}
 
 			result += LoremIpsum(length, casing);
-			if (comma == 0 || result.Length() + 2 >= bestLength)
+			if (comma == 0 || result.Length() + 3 >= bestLength)
 			{
 				result += L".";
 				break;
-- 
2.43.0


From de33c17541b5bf7acfc65a16b4a41cc0a2da23ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:31 +0000
Subject: [PATCH 20/38] fix: a collection can be replaced by one owned by its
 own elements

---
 Release/Vlpp.h                  | 32 ++++++++++++++++++++------------
 Source/Collections/Dictionary.h |  6 ++++--
 Source/Collections/List.h       | 26 ++++++++++++++++----------
 3 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 5f086e7..0b36fc3 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -1958,15 +1958,18 @@ Array
 			Array<T>& operator=(const Array<T>&) = delete;
 			Array<T>& operator=(Array<T>&& _move)
 			{
-				if (this->buffer)
-				{
-					memory_management::CallDtors(this->buffer, this->count);
-					memory_management::DeallocateBuffer(this->buffer);
-				}
+				// _move could be owned by an element of this array, it has to be emptied before elements are destroyed
+				T* oldBuffer = this->buffer;
+				vint oldCount = this->count;
 				this->buffer = _move.buffer;
 				this->count = _move.count;
 				_move.buffer = nullptr;
 				_move.count = 0;
+				if (oldBuffer)
+				{
+					memory_management::CallDtors(oldBuffer, oldCount);
+					memory_management::DeallocateBuffer(oldBuffer);
+				}
 				return *this;
 			}
 
@@ -2088,17 +2091,20 @@ ListBase
 			ListBase<T>& operator=(const ListBase<T>&) = delete;
 			ListBase<T>& operator=(ListBase<T>&& _move)
 			{
-				if (this->buffer)
-				{
-					memory_management::CallDtors(this->buffer, this->count);
-					memory_management::DeallocateBuffer(this->buffer);
-				}
+				// _move could be owned by an element of this list, it has to be emptied before elements are destroyed
+				T* oldBuffer = this->buffer;
+				vint oldCount = this->count;
 				this->buffer = _move.buffer;
 				this->count = _move.count;
 				this->capacity = _move.capacity;
 				_move.buffer = nullptr;
 				_move.count = 0;
 				_move.capacity = 0;
+				if (oldBuffer)
+				{
+					memory_management::CallDtors(oldBuffer, oldCount);
+					memory_management::DeallocateBuffer(oldBuffer);
+				}
 				return *this;
 			}
 
@@ -3029,9 +3035,11 @@ namespace vl
 			Group<KT, VT>& operator=(const Group<KT, VT>&) = delete;
 			Group<KT, VT>& operator=(Group<KT, VT> && _move)
 			{
+				// _move could be owned by a value of this group, it has to be emptied before values are destroyed
+				Group<KT, VT> moved(std::move(_move));
 				Clear();
-				keys = std::move(_move.keys);
-				values = std::move(_move.values);
+				keys = std::move(moved.keys);
+				values = std::move(moved.values);
 				return*this;
 			}
 
diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 52d0848..4881ea1 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -414,9 +414,11 @@ namespace vl
 			Group<KT, VT>& operator=(const Group<KT, VT>&) = delete;
 			Group<KT, VT>& operator=(Group<KT, VT> && _move)
 			{
+				// _move could be owned by a value of this group, it has to be emptied before values are destroyed
+				Group<KT, VT> moved(std::move(_move));
 				Clear();
-				keys = std::move(_move.keys);
-				values = std::move(_move.values);
+				keys = std::move(moved.keys);
+				values = std::move(moved.values);
 				return*this;
 			}
 
diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index da54cfa..853800d 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -357,15 +357,18 @@ Array
 			Array<T>& operator=(const Array<T>&) = delete;
 			Array<T>& operator=(Array<T>&& _move)
 			{
-				if (this->buffer)
-				{
-					memory_management::CallDtors(this->buffer, this->count);
-					memory_management::DeallocateBuffer(this->buffer);
-				}
+				// _move could be owned by an element of this array, it has to be emptied before elements are destroyed
+				T* oldBuffer = this->buffer;
+				vint oldCount = this->count;
 				this->buffer = _move.buffer;
 				this->count = _move.count;
 				_move.buffer = nullptr;
 				_move.count = 0;
+				if (oldBuffer)
+				{
+					memory_management::CallDtors(oldBuffer, oldCount);
+					memory_management::DeallocateBuffer(oldBuffer);
+				}
 				return *this;
 			}
 
@@ -487,17 +490,20 @@ ListBase
 			ListBase<T>& operator=(const ListBase<T>&) = delete;
 			ListBase<T>& operator=(ListBase<T>&& _move)
 			{
-				if (this->buffer)
-				{
-					memory_management::CallDtors(this->buffer, this->count);
-					memory_management::DeallocateBuffer(this->buffer);
-				}
+				// _move could be owned by an element of this list, it has to be emptied before elements are destroyed
+				T* oldBuffer = this->buffer;
+				vint oldCount = this->count;
 				this->buffer = _move.buffer;
 				this->count = _move.count;
 				this->capacity = _move.capacity;
 				_move.buffer = nullptr;
 				_move.count = 0;
 				_move.capacity = 0;
+				if (oldBuffer)
+				{
+					memory_management::CallDtors(oldBuffer, oldCount);
+					memory_management::DeallocateBuffer(oldBuffer);
+				}
 				return *this;
 			}
 
-- 
2.43.0


From 219d5ee33c88d21c6c0631c1b6ea1f3c7af00c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:13 +0000
Subject: [PATCH 21/38] fix: Nullable can be replaced by a part of its own
 value

---
 Release/Vlpp.h               | 24 ++++++++----------------
 Source/Primitives/Nullable.h | 24 ++++++++----------------
 2 files changed, 16 insertions(+), 32 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 0b36fc3..59e8c51 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -711,8 +711,9 @@ namespace vl
 				}
 			}
 
+			T copied(value);
 			Reset();
-			new (&object)T(value);
+			new (&object)T(std::move(copied));
 			initialized = true;
 			return *this;
 		}
@@ -731,8 +732,9 @@ namespace vl
 				}
 			}
 
+			T moved(std::move(value));
 			Reset();
-			new (&object)T(std::move(value));
+			new (&object)T(std::move(moved));
 			initialized = true;
 			return *this;
 		}
@@ -757,8 +759,9 @@ namespace vl
 					}
 				}
 
+				T copied(nullable.object);
 				Reset();
-				new (&object)T(nullable.object);
+				new (&object)T(std::move(copied));
 				initialized = true;
 			}
 			return *this;
@@ -775,20 +778,9 @@ namespace vl
 			}
 			else if (this != &nullable)
 			{
-				if constexpr (std::is_move_assignable_v<T>)
-				{
-					if (initialized)
-					{
-						object = std::move(nullable.object);
-						nullable.Reset();
-						return *this;
-					}
-				}
-
-				Reset();
-				new (&object)T(std::move(nullable.object));
+				T moved(std::move(nullable.object));
 				nullable.Reset();
-				initialized = true;
+				*this = std::move(moved);
 			}
 			return *this;
 		}
diff --git a/Source/Primitives/Nullable.h b/Source/Primitives/Nullable.h
index 1147677..e516c82 100644
--- a/Source/Primitives/Nullable.h
+++ b/Source/Primitives/Nullable.h
@@ -105,8 +105,9 @@ namespace vl
 				}
 			}
 
+			T copied(value);
 			Reset();
-			new (&object)T(value);
+			new (&object)T(std::move(copied));
 			initialized = true;
 			return *this;
 		}
@@ -125,8 +126,9 @@ namespace vl
 				}
 			}
 
+			T moved(std::move(value));
 			Reset();
-			new (&object)T(std::move(value));
+			new (&object)T(std::move(moved));
 			initialized = true;
 			return *this;
 		}
@@ -151,8 +153,9 @@ namespace vl
 					}
 				}
 
+				T copied(nullable.object);
 				Reset();
-				new (&object)T(nullable.object);
+				new (&object)T(std::move(copied));
 				initialized = true;
 			}
 			return *this;
@@ -169,20 +172,9 @@ namespace vl
 			}
 			else if (this != &nullable)
 			{
-				if constexpr (std::is_move_assignable_v<T>)
-				{
-					if (initialized)
-					{
-						object = std::move(nullable.object);
-						nullable.Reset();
-						return *this;
-					}
-				}
-
-				Reset();
-				new (&object)T(std::move(nullable.object));
+				T moved(std::move(nullable.object));
 				nullable.Reset();
-				initialized = true;
+				*this = std::move(moved);
 			}
 			return *this;
 		}
-- 
2.43.0


From bb31c3b1ffc136597ee805fd948514434267c040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:37 +0000
Subject: [PATCH 22/38] fix: Variant can be replaced by a part of its own value

---
 Release/Vlpp.h              | 33 ++++++++++++++++++++++++---------
 Source/Primitives/Variant.h | 33 ++++++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 59e8c51..eaefe29 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -6427,9 +6427,10 @@ namespace vl
 				}
 				else
 				{
+					Variant<TElements...> copied(variant);
 					ElementPack::Dtor(index, buffer);
-					index = variant.index;
-					ElementPack::CopyCtor(index, buffer, variant.buffer);
+					index = copied.index;
+					ElementPack::MoveCtor(index, buffer, copied.buffer);
 				}
 			}
 			return *this;
@@ -6445,9 +6446,10 @@ namespace vl
 				}
 				else
 				{
+					Variant<TElements...> moved(std::move(variant));
 					ElementPack::Dtor(index, buffer);
-					index = variant.index;
-					ElementPack::MoveCtor(index, buffer, variant.buffer);
+					index = moved.index;
+					ElementPack::MoveCtor(index, buffer, moved.buffer);
 				}
 			}
 			return *this;
@@ -6464,9 +6466,10 @@ namespace vl
 			}
 			else
 			{
+				T copied(element);
 				ElementPack::Dtor(index, buffer);
 				index = i;
-				ElementPack::CopyCtor(VariantIndex<i>{}, buffer, element);
+				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(copied));
 			}
 			return *this;
 		}
@@ -6482,9 +6485,10 @@ namespace vl
 			}
 			else
 			{
+				T moved(std::move(element));
 				ElementPack::Dtor(index, buffer);
 				index = i;
-				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(element));
+				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(moved));
 			}
 			return *this;
 		}
@@ -6498,9 +6502,20 @@ namespace vl
 			}
 			else
 			{
-				ElementPack::Dtor(index, buffer);
-				index = I;
-				ElementPack::Ctor(i, buffer, std::forward<T&&>(value));
+				using TElement = TypeTupleElement<I, TypeTuple<TElements...>>;
+				if constexpr (std::is_move_constructible_v<TElement>)
+				{
+					TElement created(std::forward<T&&>(value));
+					ElementPack::Dtor(index, buffer);
+					index = I;
+					ElementPack::MoveCtor(i, buffer, std::move(created));
+				}
+				else
+				{
+					ElementPack::Dtor(index, buffer);
+					index = I;
+					ElementPack::Ctor(i, buffer, std::forward<T&&>(value));
+				}
 			}
 			return *this;
 		}
diff --git a/Source/Primitives/Variant.h b/Source/Primitives/Variant.h
index 42b6aa6..2734a64 100644
--- a/Source/Primitives/Variant.h
+++ b/Source/Primitives/Variant.h
@@ -349,9 +349,10 @@ namespace vl
 				}
 				else
 				{
+					Variant<TElements...> copied(variant);
 					ElementPack::Dtor(index, buffer);
-					index = variant.index;
-					ElementPack::CopyCtor(index, buffer, variant.buffer);
+					index = copied.index;
+					ElementPack::MoveCtor(index, buffer, copied.buffer);
 				}
 			}
 			return *this;
@@ -367,9 +368,10 @@ namespace vl
 				}
 				else
 				{
+					Variant<TElements...> moved(std::move(variant));
 					ElementPack::Dtor(index, buffer);
-					index = variant.index;
-					ElementPack::MoveCtor(index, buffer, variant.buffer);
+					index = moved.index;
+					ElementPack::MoveCtor(index, buffer, moved.buffer);
 				}
 			}
 			return *this;
@@ -386,9 +388,10 @@ namespace vl
 			}
 			else
 			{
+				T copied(element);
 				ElementPack::Dtor(index, buffer);
 				index = i;
-				ElementPack::CopyCtor(VariantIndex<i>{}, buffer, element);
+				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(copied));
 			}
 			return *this;
 		}
@@ -404,9 +407,10 @@ namespace vl
 			}
 			else
 			{
+				T moved(std::move(element));
 				ElementPack::Dtor(index, buffer);
 				index = i;
-				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(element));
+				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(moved));
 			}
 			return *this;
 		}
@@ -420,9 +424,20 @@ namespace vl
 			}
 			else
 			{
-				ElementPack::Dtor(index, buffer);
-				index = I;
-				ElementPack::Ctor(i, buffer, std::forward<T&&>(value));
+				using TElement = TypeTupleElement<I, TypeTuple<TElements...>>;
+				if constexpr (std::is_move_constructible_v<TElement>)
+				{
+					TElement created(std::forward<T&&>(value));
+					ElementPack::Dtor(index, buffer);
+					index = I;
+					ElementPack::MoveCtor(i, buffer, std::move(created));
+				}
+				else
+				{
+					ElementPack::Dtor(index, buffer);
+					index = I;
+					ElementPack::Ctor(i, buffer, std::forward<T&&>(value));
+				}
 			}
 			return *this;
 		}
-- 
2.43.0


From 046f25a231d489eaf0a327c1abacf6c1c85e59e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:58 +0000
Subject: [PATCH 23/38] fix: callbacks of an event can attach and detach
 callbacks while they are called

---
 Release/Vlpp.h            | 11 ++++++++++-
 Source/Primitives/Event.h | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index eaefe29..7fea576 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -5560,9 +5560,18 @@ namespace vl
 		template<typename... TArgs2>
 		void operator()(TArgs2&& ...args)const
 		{
+			// callbacks could attach or detach callbacks when they are being called
+			collections::Array<Ptr<EventHandlerImpl>> attachedHandlers(handlers.Count());
 			for(vint i = 0; i < handlers.Count(); i++)
 			{
-				handlers[i]->function(args...);
+				attachedHandlers[i] = handlers[i];
+			}
+			for(vint i = 0; i < attachedHandlers.Count(); i++)
+			{
+				if (attachedHandlers[i]->attached)
+				{
+					attachedHandlers[i]->function(args...);
+				}
 			}
 		}
 	};
diff --git a/Source/Primitives/Event.h b/Source/Primitives/Event.h
index caaf7ea..0cd4d9b 100644
--- a/Source/Primitives/Event.h
+++ b/Source/Primitives/Event.h
@@ -96,9 +96,18 @@ namespace vl
 		template<typename... TArgs2>
 		void operator()(TArgs2&& ...args)const
 		{
+			// callbacks could attach or detach callbacks when they are being called
+			collections::Array<Ptr<EventHandlerImpl>> attachedHandlers(handlers.Count());
 			for(vint i = 0; i < handlers.Count(); i++)
 			{
-				handlers[i]->function(args...);
+				attachedHandlers[i] = handlers[i];
+			}
+			for(vint i = 0; i < attachedHandlers.Count(); i++)
+			{
+				if (attachedHandlers[i]->attached)
+				{
+					attachedHandlers[i]->function(args...);
+				}
 			}
 		}
 	};
-- 
2.43.0


From 88fd12785d942b0e2e7d026b9814c620483fa2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:14 +0000
Subject: [PATCH 24/38] fix: a range-based for loop releases its enumerator
 when it fails to begin

---
 Release/Vlpp.h                        | 20 ++++++++++++++++++--
 Source/Collections/OperationForEach.h | 20 ++++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 7fea576..0ccdd3a 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -5935,7 +5935,15 @@ Range-Based For-Loop Iterator
 			RangeBasedForLoopIterator(const IEnumerable<T>& enumerable)
 				: iterator(enumerable.CreateEnumerator())
 			{
-				operator++();
+				try
+				{
+					operator++();
+				}
+				catch (...)
+				{
+					delete iterator;
+					throw;
+				}
 			}
 
 			~RangeBasedForLoopIterator()
@@ -6006,7 +6014,15 @@ Range-Based For-Loop Iterator with Index
 				: iterator(enumerable.CreateEnumerator())
 				, index(-1)
 			{
-				operator++();
+				try
+				{
+					operator++();
+				}
+				catch (...)
+				{
+					delete iterator;
+					throw;
+				}
 			}
 
 			~RangeBasedForLoopIteratorWithIndex()
diff --git a/Source/Collections/OperationForEach.h b/Source/Collections/OperationForEach.h
index c3da1eb..8d56cdd 100644
--- a/Source/Collections/OperationForEach.h
+++ b/Source/Collections/OperationForEach.h
@@ -31,7 +31,15 @@ Range-Based For-Loop Iterator
 			RangeBasedForLoopIterator(const IEnumerable<T>& enumerable)
 				: iterator(enumerable.CreateEnumerator())
 			{
-				operator++();
+				try
+				{
+					operator++();
+				}
+				catch (...)
+				{
+					delete iterator;
+					throw;
+				}
 			}
 
 			~RangeBasedForLoopIterator()
@@ -102,7 +110,15 @@ Range-Based For-Loop Iterator with Index
 				: iterator(enumerable.CreateEnumerator())
 				, index(-1)
 			{
-				operator++();
+				try
+				{
+					operator++();
+				}
+				catch (...)
+				{
+					delete iterator;
+					throw;
+				}
 			}
 
 			~RangeBasedForLoopIteratorWithIndex()
-- 
2.43.0


From d81fbfff3f4a1166c4a26f30726deaa54f710275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:58 +0000
Subject: [PATCH 25/38] fix: Intersect and Except release their enumerator when
 reading the other list fails

---
 Release/Vlpp.h                    | 10 +++++++++-
 Source/Collections/OperationSet.h | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 0ccdd3a..5f1b7a7 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -4466,7 +4466,15 @@ Intersect/Except
 				:enumerator(_enumerator)
 				,index(-1)
 			{
-				CopyFrom(reference, _reference);
+				try
+				{
+					CopyFrom(reference, _reference);
+				}
+				catch (...)
+				{
+					delete enumerator;
+					throw;
+				}
 			}
 
 			IntersectExceptEnumerator(const IntersectExceptEnumerator& _enumerator)
diff --git a/Source/Collections/OperationSet.h b/Source/Collections/OperationSet.h
index 65f557c..8e12e33 100644
--- a/Source/Collections/OperationSet.h
+++ b/Source/Collections/OperationSet.h
@@ -32,7 +32,15 @@ Intersect/Except
 				:enumerator(_enumerator)
 				,index(-1)
 			{
-				CopyFrom(reference, _reference);
+				try
+				{
+					CopyFrom(reference, _reference);
+				}
+				catch (...)
+				{
+					delete enumerator;
+					throw;
+				}
 			}
 
 			IntersectExceptEnumerator(const IntersectExceptEnumerator& _enumerator)
-- 
2.43.0


From 04f1e64527d63ca119f0d05cd0a681098257f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:09 +0000
Subject: [PATCH 26/38] fix: converting a temporary Tuple or Pair of references
 no longer moves from the objects they refer to

---
 Release/Vlpp.h            | 8 ++++----
 Source/Collections/Pair.h | 4 ++--
 Source/Primitives/Tuple.h | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 5f1b7a7..8df48b6 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -399,8 +399,8 @@ namespace vl
 			template<typename TKey, typename TValue>
 			Pair(Pair<TKey, TValue>&& p)
 				requires(std::is_constructible_v<K, TKey&&> && std::is_constructible_v<K, TKey&&>)
-				: key(std::move(p.key))
-				, value(std::move(p.value))
+				: key(std::forward<TKey>(p.key))
+				, value(std::forward<TValue>(p.value))
 			{
 			}
 
@@ -5624,7 +5624,7 @@ namespace vl
 			template<typename U>
 			void AssignMove(TupleElement<I, U>&& value)
 			{
-				element = std::move(value.GetElement());
+				element = std::forward<U>(value.GetElement());
 			}
 
 			template<typename U>
@@ -5739,7 +5739,7 @@ namespace vl
 
 			template<typename ...UArgs>
 			TupleBase(TupleCtorTupleTag, TCompatible<UArgs...>&& t)
-				: TupleElement<Is, TArgs>(std::move(static_cast<TupleElement<Is, UArgs>&>(t).GetElement())) ...
+				: TupleElement<Is, TArgs>(std::forward<UArgs>(static_cast<TupleElement<Is, UArgs>&>(t).GetElement())) ...
 			{
 			}
 
diff --git a/Source/Collections/Pair.h b/Source/Collections/Pair.h
index b335299..e1d85bd 100644
--- a/Source/Collections/Pair.h
+++ b/Source/Collections/Pair.h
@@ -84,8 +84,8 @@ namespace vl
 			template<typename TKey, typename TValue>
 			Pair(Pair<TKey, TValue>&& p)
 				requires(std::is_constructible_v<K, TKey&&> && std::is_constructible_v<K, TKey&&>)
-				: key(std::move(p.key))
-				, value(std::move(p.value))
+				: key(std::forward<TKey>(p.key))
+				, value(std::forward<TValue>(p.value))
 			{
 			}
 
diff --git a/Source/Primitives/Tuple.h b/Source/Primitives/Tuple.h
index d4758fc..a9bc661 100644
--- a/Source/Primitives/Tuple.h
+++ b/Source/Primitives/Tuple.h
@@ -33,7 +33,7 @@ namespace vl
 			template<typename U>
 			void AssignMove(TupleElement<I, U>&& value)
 			{
-				element = std::move(value.GetElement());
+				element = std::forward<U>(value.GetElement());
 			}
 
 			template<typename U>
@@ -148,7 +148,7 @@ namespace vl
 
 			template<typename ...UArgs>
 			TupleBase(TupleCtorTupleTag, TCompatible<UArgs...>&& t)
-				: TupleElement<Is, TArgs>(std::move(static_cast<TupleElement<Is, UArgs>&>(t).GetElement())) ...
+				: TupleElement<Is, TArgs>(std::forward<UArgs>(static_cast<TupleElement<Is, UArgs>&>(t).GetElement())) ...
 			{
 			}
 
-- 
2.43.0


From 1671617810c958e2774c4bede12252fc789f629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:09 +0000
Subject: [PATCH 27/38] fix: Console::Read keeps zero characters in a line

---
 Release/Vlpp.Linux.cpp   | 2 +-
 Source/Console.Linux.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Release/Vlpp.Linux.cpp b/Release/Vlpp.Linux.cpp
index 0525a2e..1da628c 100644
--- a/Release/Vlpp.Linux.cpp
+++ b/Release/Vlpp.Linux.cpp
@@ -38,7 +38,7 @@ Console
 		{
 			std::wstring s;
 			std::getline(std::wcin, s, L'\n');
-			return s.c_str();
+			return WString::CopyFrom(s.c_str(), (vint)s.size());
 		}
 
 		void Console::SetColor(bool red, bool green, bool blue, bool light)
diff --git a/Source/Console.Linux.cpp b/Source/Console.Linux.cpp
index d7e51dc..12d1f34 100644
--- a/Source/Console.Linux.cpp
+++ b/Source/Console.Linux.cpp
@@ -30,7 +30,7 @@ Console
 		{
 			std::wstring s;
 			std::getline(std::wcin, s, L'\n');
-			return s.c_str();
+			return WString::CopyFrom(s.c_str(), (vint)s.size());
 		}
 
 		void Console::SetColor(bool red, bool green, bool blue, bool light)
-- 
2.43.0


From 1664d23f7382ecbc6dc7be33b5e423edd818b8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:08 +0000
Subject: [PATCH 28/38] fix: a global storage whose initialization fails is not
 considered initialized

---
 Release/Vlpp.cpp         | 10 +++++++++-
 Source/GlobalStorage.cpp | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/Release/Vlpp.cpp b/Release/Vlpp.cpp
index 68283a2..323cc8a 100644
--- a/Release/Vlpp.cpp
+++ b/Release/Vlpp.cpp
@@ -174,7 +174,15 @@ GlobalStorage
 		if (!initialized)
 		{
 			initialized = true;
-			InitializeResource();
+			try
+			{
+				InitializeResource();
+			}
+			catch (...)
+			{
+				initialized = false;
+				throw;
+			}
 		}
 	}
 
diff --git a/Source/GlobalStorage.cpp b/Source/GlobalStorage.cpp
index 24a3acc..f022c0e 100644
--- a/Source/GlobalStorage.cpp
+++ b/Source/GlobalStorage.cpp
@@ -56,7 +56,15 @@ GlobalStorage
 		if (!initialized)
 		{
 			initialized = true;
-			InitializeResource();
+			try
+			{
+				InitializeResource();
+			}
+			catch (...)
+			{
+				initialized = false;
+				throw;
+			}
 		}
 	}
 
-- 
2.43.0


From e9273beff3f2477e35709347f325f1a4e99c27d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:09 +0000
Subject: [PATCH 29/38] fix: Take of the smallest count gives no element

---
 Release/Vlpp.h                         | 2 +-
 Source/Collections/OperationSequence.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 8df48b6..185067a 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -4052,7 +4052,7 @@ Take
 
 			bool Next()override
 			{
-				if(enumerator->Index()>=count-1) return false;
+				if(count<=0 || enumerator->Index()>=count-1) return false;
 				return enumerator->Next();
 			}
 
diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index 12f83dd..960cd11 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -54,7 +54,7 @@ Take
 
 			bool Next()override
 			{
-				if(enumerator->Index()>=count-1) return false;
+				if(count<=0 || enumerator->Index()>=count-1) return false;
 				return enumerator->Next();
 			}
 
-- 
2.43.0


From 1dc52f4a6d9dd81e99a4577252b6a9957e5e7f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:09 +0000
Subject: [PATCH 30/38] fix: Skip of a negative count skips nothing and counts
 indices from zero

---
 Release/Vlpp.h                         | 2 +-
 Source/Collections/OperationSequence.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 185067a..cfabd7d 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -4081,7 +4081,7 @@ Skip
 		public:
 			SkipEnumerator(IEnumerator<T>* _enumerator, vint _count, bool _skipped=false)
 				:enumerator(_enumerator)
-				,count(_count)
+				,count(_count<0?0:_count)
 				,skipped(_skipped)
 			{
 			}
diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index 960cd11..172aa0b 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -83,7 +83,7 @@ Skip
 		public:
 			SkipEnumerator(IEnumerator<T>* _enumerator, vint _count, bool _skipped=false)
 				:enumerator(_enumerator)
-				,count(_count)
+				,count(_count<0?0:_count)
 				,skipped(_skipped)
 			{
 			}
-- 
2.43.0


From 8890b63c522609007809619bcc40ed9bd359fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:10 +0000
Subject: [PATCH 31/38] fix: Range includes the smallest and largest integers
 and very large counts

---
 Release/Vlpp.h                           | 19 ++++++++++++-------
 Source/Collections/OperationEnumerable.h | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index cfabd7d..814eb91 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -3635,11 +3635,13 @@ RangeEnumerator
 		protected:
 			T			start;
 			T			count;
+			T			index;
 			T			current;
 		public:
-			RangeEnumerator(T _start, T _count, T _current)
+			RangeEnumerator(T _start, T _count, T _index, T _current)
 				:start(_start)
 				,count(_count)
+				,index(_index)
 				,current(_current)
 			{
 			}
@@ -3647,13 +3649,14 @@ RangeEnumerator
 			RangeEnumerator(T _start, T _count)
 				:start(_start)
 				,count(_count)
-				,current(_start-1)
+				,index(-1)
+				,current(_start)
 			{
 			}
 
 			IEnumerator<T>* Clone()const override
 			{
-				return new RangeEnumerator(start, count, current);
+				return new RangeEnumerator(start, count, index, current);
 			}
 
 			const T& Current()const override
@@ -3663,14 +3666,15 @@ RangeEnumerator
 
 			T Index()const override
 			{
-				return current-start;
+				return index;
 			}
 
 			bool Next()override
 			{
-				if(start-1<=current && current<start+count-1)
+				if(index+1<count)
 				{
-					current++;
+					index++;
+					current=start+index;
 					return true;
 				}
 				else
@@ -3681,7 +3685,8 @@ RangeEnumerator
 
 			void Reset()override
 			{
-				current=start-1;
+				index=-1;
+				current=start;
 			}
 
 			bool Evaluated()const override
diff --git a/Source/Collections/OperationEnumerable.h b/Source/Collections/OperationEnumerable.h
index f4829ee..5e231cc 100644
--- a/Source/Collections/OperationEnumerable.h
+++ b/Source/Collections/OperationEnumerable.h
@@ -61,11 +61,13 @@ RangeEnumerator
 		protected:
 			T			start;
 			T			count;
+			T			index;
 			T			current;
 		public:
-			RangeEnumerator(T _start, T _count, T _current)
+			RangeEnumerator(T _start, T _count, T _index, T _current)
 				:start(_start)
 				,count(_count)
+				,index(_index)
 				,current(_current)
 			{
 			}
@@ -73,13 +75,14 @@ RangeEnumerator
 			RangeEnumerator(T _start, T _count)
 				:start(_start)
 				,count(_count)
-				,current(_start-1)
+				,index(-1)
+				,current(_start)
 			{
 			}
 
 			IEnumerator<T>* Clone()const override
 			{
-				return new RangeEnumerator(start, count, current);
+				return new RangeEnumerator(start, count, index, current);
 			}
 
 			const T& Current()const override
@@ -89,14 +92,15 @@ RangeEnumerator
 
 			T Index()const override
 			{
-				return current-start;
+				return index;
 			}
 
 			bool Next()override
 			{
-				if(start-1<=current && current<start+count-1)
+				if(index+1<count)
 				{
-					current++;
+					index++;
+					current=start+index;
 					return true;
 				}
 				else
@@ -107,7 +111,8 @@ RangeEnumerator
 
 			void Reset()override
 			{
-				current=start-1;
+				index=-1;
+				current=start;
 			}
 
 			bool Evaluated()const override
-- 
2.43.0


From e732aeb42e67a13372214a4c1526d8bc57354c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:10 +0000
Subject: [PATCH 32/38] fix: DateTime does not use time buffers that are shared
 by all threads

---
 Release/Vlpp.Linux.cpp               | 41 ++++++++++++++++++----------
 Source/Primitives/DateTime.Linux.cpp | 41 ++++++++++++++++++----------
 2 files changed, 54 insertions(+), 28 deletions(-)

diff --git a/Release/Vlpp.Linux.cpp b/Release/Vlpp.Linux.cpp
index 1da628c..6412fa7 100644
--- a/Release/Vlpp.Linux.cpp
+++ b/Release/Vlpp.Linux.cpp
@@ -97,6 +97,13 @@ DateTime
 			timer = (time_t)((signedInternal - milliseconds) / 1000);
 		}
 
+		static void ConvertTimeToLocalTM(time_t timer, tm& timeinfo)
+		{
+			// localtime and gmtime return a pointer to a buffer shared by all threads
+			tzset();
+			localtime_r(&timer, &timeinfo);
+		}
+
 		static vuint64_t ConvertTMTToOSInternal(tm* timeinfo, vint milliseconds)
 		{
 			time_t timer = mktime(timeinfo);
@@ -144,25 +151,28 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			tm* timeinfo = localtime(&timer);
-			return ConvertTMToDateTime(timeinfo, milliseconds);
+			tm timeinfo;
+			ConvertTimeToLocalTM(timer, timeinfo);
+			return ConvertTMToDateTime(&timeinfo, milliseconds);
 		}
 
 		vuint64_t LocalTime() override
 		{
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
-			tm* timeinfo = localtime(&tv.tv_sec);
-			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
+			tm timeinfo;
+			ConvertTimeToLocalTM(tv.tv_sec, timeinfo);
+			return ConvertTMTToOSInternal(&timeinfo, tv.tv_usec / 1000);
 		}
 
 		vuint64_t UtcTime() override
 		{
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
-			tm* timeinfo = gmtime(&tv.tv_sec);
-			timeinfo->tm_isdst = -1;
-			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
+			tm timeinfo;
+			gmtime_r(&tv.tv_sec, &timeinfo);
+			timeinfo.tm_isdst = -1;
+			return ConvertTMTToOSInternal(&timeinfo, tv.tv_usec / 1000);
 		}
 
 		vuint64_t LocalToUtcTime(vuint64_t osInternal) override
@@ -171,9 +181,10 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			tm* timeinfo = gmtime(&timer);
-			timeinfo->tm_isdst = -1;
-			return ConvertTMTToOSInternal(timeinfo, milliseconds);
+			tm timeinfo;
+			gmtime_r(&timer, &timeinfo);
+			timeinfo.tm_isdst = -1;
+			return ConvertTMTToOSInternal(&timeinfo, milliseconds);
 		}
 
 		vuint64_t UtcToLocalTime(vuint64_t osInternal) override
@@ -182,10 +193,12 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			time_t localTimer = mktime(localtime(&timer));
-			tm* timeinfo = gmtime(&timer);
-			timeinfo->tm_isdst = -1;
-			time_t utcTimer = mktime(timeinfo);
+			tm timeinfo;
+			ConvertTimeToLocalTM(timer, timeinfo);
+			time_t localTimer = mktime(&timeinfo);
+			gmtime_r(&timer, &timeinfo);
+			timeinfo.tm_isdst = -1;
+			time_t utcTimer = mktime(&timeinfo);
 			timer += localTimer - utcTimer;
 
 			TimeToOSInternal(timer, milliseconds, osInternal);
diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index a63e87d..94de964 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -36,6 +36,13 @@ DateTime
 			timer = (time_t)((signedInternal - milliseconds) / 1000);
 		}
 
+		static void ConvertTimeToLocalTM(time_t timer, tm& timeinfo)
+		{
+			// localtime and gmtime return a pointer to a buffer shared by all threads
+			tzset();
+			localtime_r(&timer, &timeinfo);
+		}
+
 		static vuint64_t ConvertTMTToOSInternal(tm* timeinfo, vint milliseconds)
 		{
 			time_t timer = mktime(timeinfo);
@@ -83,25 +90,28 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			tm* timeinfo = localtime(&timer);
-			return ConvertTMToDateTime(timeinfo, milliseconds);
+			tm timeinfo;
+			ConvertTimeToLocalTM(timer, timeinfo);
+			return ConvertTMToDateTime(&timeinfo, milliseconds);
 		}
 
 		vuint64_t LocalTime() override
 		{
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
-			tm* timeinfo = localtime(&tv.tv_sec);
-			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
+			tm timeinfo;
+			ConvertTimeToLocalTM(tv.tv_sec, timeinfo);
+			return ConvertTMTToOSInternal(&timeinfo, tv.tv_usec / 1000);
 		}
 
 		vuint64_t UtcTime() override
 		{
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
-			tm* timeinfo = gmtime(&tv.tv_sec);
-			timeinfo->tm_isdst = -1;
-			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
+			tm timeinfo;
+			gmtime_r(&tv.tv_sec, &timeinfo);
+			timeinfo.tm_isdst = -1;
+			return ConvertTMTToOSInternal(&timeinfo, tv.tv_usec / 1000);
 		}
 
 		vuint64_t LocalToUtcTime(vuint64_t osInternal) override
@@ -110,9 +120,10 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			tm* timeinfo = gmtime(&timer);
-			timeinfo->tm_isdst = -1;
-			return ConvertTMTToOSInternal(timeinfo, milliseconds);
+			tm timeinfo;
+			gmtime_r(&timer, &timeinfo);
+			timeinfo.tm_isdst = -1;
+			return ConvertTMTToOSInternal(&timeinfo, milliseconds);
 		}
 
 		vuint64_t UtcToLocalTime(vuint64_t osInternal) override
@@ -121,10 +132,12 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			time_t localTimer = mktime(localtime(&timer));
-			tm* timeinfo = gmtime(&timer);
-			timeinfo->tm_isdst = -1;
-			time_t utcTimer = mktime(timeinfo);
+			tm timeinfo;
+			ConvertTimeToLocalTM(timer, timeinfo);
+			time_t localTimer = mktime(&timeinfo);
+			gmtime_r(&timer, &timeinfo);
+			timeinfo.tm_isdst = -1;
+			time_t utcTimer = mktime(&timeinfo);
 			timer += localTimer - utcTimer;
 
 			TimeToOSInternal(timer, milliseconds, osInternal);
-- 
2.43.0


From 3548a61600ed085819c67a9afc5714137ba90a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:10 +0000
Subject: [PATCH 33/38] fix: narrow conversion into a buffer without capacity
 writes nothing

---
 Release/Vlpp.Linux.cpp              | 2 ++
 Source/Strings/Conversion.Linux.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Release/Vlpp.Linux.cpp b/Release/Vlpp.Linux.cpp
index 6412fa7..88bbf6c 100644
--- a/Release/Vlpp.Linux.cpp
+++ b/Release/Vlpp.Linux.cpp
@@ -245,11 +245,13 @@ String Conversions (buffer walkthrough)
 
 	vint _wtoa(const wchar_t* w, char* a, vint chars)
 	{
+		if (a && chars <= 0) return 0;
 		return wcstombs(a, w, chars - 1) + 1;
 	}
 
 	vint _atow(const char* a, wchar_t* w, vint chars)
 	{
+		if (w && chars <= 0) return 0;
 		return mbstowcs(w, a, chars - 1) + 1;
 	}
 }
diff --git a/Source/Strings/Conversion.Linux.cpp b/Source/Strings/Conversion.Linux.cpp
index fdf81b5..f371cc9 100644
--- a/Source/Strings/Conversion.Linux.cpp
+++ b/Source/Strings/Conversion.Linux.cpp
@@ -16,11 +16,13 @@ String Conversions (buffer walkthrough)
 
 	vint _wtoa(const wchar_t* w, char* a, vint chars)
 	{
+		if (a && chars <= 0) return 0;
 		return wcstombs(a, w, chars - 1) + 1;
 	}
 
 	vint _atow(const char* a, wchar_t* w, vint chars)
 	{
+		if (w && chars <= 0) return 0;
 		return mbstowcs(w, a, chars - 1) + 1;
 	}
 }
-- 
2.43.0


From 84818edddb763de8796449609c2077d14fcfc77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:10 +0000
Subject: [PATCH 34/38] fix: an empty text is not a number

---
 Release/Vlpp.cpp          | 4 ++--
 Source/Strings/String.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Release/Vlpp.cpp b/Release/Vlpp.cpp
index 323cc8a..33db7b9 100644
--- a/Release/Vlpp.cpp
+++ b/Release/Vlpp.cpp
@@ -1106,7 +1106,7 @@ namespace vl
 	{
 		char* endptr = 0;
 		double result = strtod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
@@ -1114,7 +1114,7 @@ namespace vl
 	{
 		wchar_t* endptr = 0;
 		double result = wcstod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index 5fa2a82..dfe0091 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -194,7 +194,7 @@ namespace vl
 	{
 		char* endptr = 0;
 		double result = strtod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
@@ -202,7 +202,7 @@ namespace vl
 	{
 		wchar_t* endptr = 0;
 		double result = wcstod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
-- 
2.43.0


From 25c22099ae9e4a2dfdf640e87b2caabecc846a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:17 +0000
Subject: [PATCH 35/38] fix: UtcToLocalTime uses the offset at that moment near
 a daylight saving switch

---
 Release/Vlpp.Linux.cpp               | 7 ++-----
 Source/Primitives/DateTime.Linux.cpp | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/Release/Vlpp.Linux.cpp b/Release/Vlpp.Linux.cpp
index 88bbf6c..cd8fbe3 100644
--- a/Release/Vlpp.Linux.cpp
+++ b/Release/Vlpp.Linux.cpp
@@ -193,13 +193,10 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
+			// the fields are a UTC time, the offset is the one at that moment, not the one at the same local time
 			tm timeinfo;
 			ConvertTimeToLocalTM(timer, timeinfo);
-			time_t localTimer = mktime(&timeinfo);
-			gmtime_r(&timer, &timeinfo);
-			timeinfo.tm_isdst = -1;
-			time_t utcTimer = mktime(&timeinfo);
-			timer += localTimer - utcTimer;
+			timer = timegm(&timeinfo);
 
 			TimeToOSInternal(timer, milliseconds, osInternal);
 			return osInternal;
diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index 94de964..306aa46 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -132,13 +132,10 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
+			// the fields are a UTC time, the offset is the one at that moment, not the one at the same local time
 			tm timeinfo;
 			ConvertTimeToLocalTM(timer, timeinfo);
-			time_t localTimer = mktime(&timeinfo);
-			gmtime_r(&timer, &timeinfo);
-			timeinfo.tm_isdst = -1;
-			time_t utcTimer = mktime(&timeinfo);
-			timer += localTimer - utcTimer;
+			timer = timegm(&timeinfo);
 
 			TimeToOSInternal(timer, milliseconds, osInternal);
 			return osInternal;
-- 
2.43.0


From a10156721e2f876906907e61c5e0a86dac5aadf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:22 +0000
Subject: [PATCH 36/38] fix: ordering of tuples and pairs of strongly ordered
 components is strong

---
 Release/Vlpp.h | 6 ++++++
 Source/Basic.h | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 814eb91..eb360b1 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -260,6 +260,12 @@ Type Traits
 			using Type = std::partial_ordering;
 		};
 
+		template<>
+		struct OrderingSelection<false, false, true>
+		{
+			using Type = std::strong_ordering;
+		};
+
 		template<bool SO>
 		struct OrderingSelection<false, true, SO>
 		{
diff --git a/Source/Basic.h b/Source/Basic.h
index 3f9c703..bc7dd33 100644
--- a/Source/Basic.h
+++ b/Source/Basic.h
@@ -252,6 +252,12 @@ Type Traits
 			using Type = std::partial_ordering;
 		};
 
+		template<>
+		struct OrderingSelection<false, false, true>
+		{
+			using Type = std::strong_ordering;
+		};
+
 		template<bool SO>
 		struct OrderingSelection<false, true, SO>
 		{
-- 
2.43.0


From 263d6807e331d3a7ee82e7b5786966770a06345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:27 +0000
Subject: [PATCH 37/38] fix: TEST_EXCEPTION reports that nothing occurred and
 passes failing assertions on

---
 Release/Vlpp.h             | 2 ++
 Source/UnitTest/UnitTest.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index eb360b1..32b9a9e 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -9445,6 +9445,8 @@ namespace vl
 			auto __ASSERT_FUNCTION__ = ASSERT_FUNCTION;\
 			try{STATEMENT; throw ::vl::unittest::UnitTestAssertError(L"Expect [" #EXCEPTION "] but nothing occurred: " #STATEMENT);}\
 			catch(const EXCEPTION& e){ __ASSERT_FUNCTION__(e); }\
+			catch(const ::vl::unittest::UnitTestAssertError&) { throw; }\
+			catch(const ::vl::unittest::UnitTestConfigError&) { throw; }\
 			catch(...){ throw ::vl::unittest::UnitTestAssertError(L"Expect [" #EXCEPTION "] but get unexpected exception: " #STATEMENT); }\
 		}while(0)\
 
diff --git a/Source/UnitTest/UnitTest.h b/Source/UnitTest/UnitTest.h
index 605496f..a08e75e 100644
--- a/Source/UnitTest/UnitTest.h
+++ b/Source/UnitTest/UnitTest.h
@@ -201,6 +201,8 @@ namespace vl
 			auto __ASSERT_FUNCTION__ = ASSERT_FUNCTION;\
 			try{STATEMENT; throw ::vl::unittest::UnitTestAssertError(L"Expect [" #EXCEPTION "] but nothing occurred: " #STATEMENT);}\
 			catch(const EXCEPTION& e){ __ASSERT_FUNCTION__(e); }\
+			catch(const ::vl::unittest::UnitTestAssertError&) { throw; }\
+			catch(const ::vl::unittest::UnitTestConfigError&) { throw; }\
 			catch(...){ throw ::vl::unittest::UnitTestAssertError(L"Expect [" #EXCEPTION "] but get unexpected exception: " #STATEMENT); }\
 		}while(0)\
 
-- 
2.43.0


From 19aff568f62b603697b341c9e7480afd26f9a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:28 +0000
Subject: [PATCH 38/38] fix: repeating an empty sequence ends at once whatever
 the count is

---
 Release/Vlpp.h                         | 3 ++-
 Source/Collections/OperationSequence.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Release/Vlpp.h b/Release/Vlpp.h
index 32b9a9e..0555747 100644
--- a/Release/Vlpp.h
+++ b/Release/Vlpp.h
@@ -4195,7 +4195,8 @@ Repeat
 						index++;
 						return true;
 					}
-					repeatedCount++;
+					// an empty sequence is empty no matter how many times it repeats
+					repeatedCount=index==-1?count:repeatedCount+1;
 					enumerator->Reset();
 				}
 				return false;
diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index 172aa0b..01fdfd4 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -186,7 +186,8 @@ Repeat
 						index++;
 						return true;
 					}
-					repeatedCount++;
+					// an empty sequence is empty no matter how many times it repeats
+					repeatedCount=index==-1?count:repeatedCount+1;
 					enumerator->Reset();
 				}
 				return false;
-- 
2.43.0

