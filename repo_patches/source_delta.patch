From 0f4fb6851a973f943473fb681f8f8234887f51d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 01/20] fix: keep the part of a control surface that starts at
 a segment break and passes the next one

---
 .../Two_Dimensional/Planform/populate_control_sections.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py
index 367378d..93ed7d8 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/populate_control_sections.py
@@ -81,7 +81,7 @@ def populate_control_sections(wing):
                     append_CS = True 
                     
                 # Case 3   
-                elif (sf[0] < w_seg[i-1].percent_span_location) and (sf[1] > w_seg[i].percent_span_location):
+                elif (sf[0] <= w_seg[i-1].percent_span_location) and (sf[1] > w_seg[i].percent_span_location):
                     s_sf = np.array([w_seg[i-1].percent_span_location,w_seg[i].percent_span_location])       
                     append_CS = True                 
                 
-- 
2.43.0


From a0633979b60ae6853b83e5233efc7cc1b6938f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:53 +0000
Subject: [PATCH 02/20] fix: count both sides of a symmetric wing in the
 overwritten wetted area

---
 .../Two_Dimensional/Planform/wing_segmented_planform.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
index 87c380c..abae28c 100644
--- a/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
+++ b/trunk/SUAVE/Methods/Geometry/Two_Dimensional/Planform/wing_segmented_planform.py
@@ -94,7 +94,7 @@ def wing_segmented_planform(wing, overwrite_reference = False):
     
     # Calculate the weighted area, this should not include any unexposed area 
     A_wets = 2*(1+0.2*t_cs[:-1])*As
-    wet_area = np.sum(A_wets)
+    wet_area = np.sum(A_wets)*(1+sym)
     
     # Calculate the wing area
     ref_area = np.sum(As)*(1+sym)
-- 
2.43.0


From 52499d09c2fb6da86eb786ba9a85b530601eef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:15 +0000
Subject: [PATCH 03/20] fix: measure the pitch schedule from the start of the
 segment

---
 .../Segments/Cruise/Constant_Pitch_Rate_Constant_Altitude.py  | 2 +-
 ...stant_Acceleration_Constant_Pitchrate_Constant_Altitude.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Pitch_Rate_Constant_Altitude.py b/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Pitch_Rate_Constant_Altitude.py
index a8e59f9..468b408 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Pitch_Rate_Constant_Altitude.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Cruise/Constant_Pitch_Rate_Constant_Altitude.py
@@ -67,7 +67,7 @@ def initialize_conditions(segment):
     time      = t_nondim * (t_final-t_initial) + t_initial
     
     # set the body angle
-    body_angle = theta_dot*time + T0
+    body_angle = theta_dot*(time-t_initial) + T0
     segment.state.conditions.frames.body.inertial_rotations[:,1] = body_angle[:,0]    
     
     # pack
diff --git a/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py b/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
index df9d6d0..35622bf 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Transition/Constant_Acceleration_Constant_Pitchrate_Constant_Altitude.py
@@ -65,9 +65,9 @@ def initialize_conditions(segment):
     
     # set the body angle
     if Tf > T0:
-        body_angle = T0 + time*(Tf-T0)/(t_final-t_initial)
+        body_angle = T0 + (time-t_initial)*(Tf-T0)/(t_final-t_initial)
     else:
-        body_angle = T0 - time*(T0-Tf)/(t_final-t_initial)
+        body_angle = T0 - (time-t_initial)*(T0-Tf)/(t_final-t_initial)
     segment.state.conditions.frames.body.inertial_rotations[:,1] = body_angle[:,0]     
     
     # pack
-- 
2.43.0


From ca747b798e748b75ef83442ad5dbcc36c25abfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:50 +0000
Subject: [PATCH 04/20] fix: let constant-angle climbs with unknown altitudes
 inherit their start altitude

---
 trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py b/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
index 58b9d41..c5b41a5 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
@@ -107,6 +107,11 @@ def update_differentials(segment):
     alt0       = segment.altitude_start
     altf       = segment.altitude_end    
 
+    # check for initial altitude
+    if alt0 is None:
+        if not segment.state.initials: raise AttributeError('initial altitude not set')
+        alt0 = -1.0 * segment.state.initials.conditions.frames.inertial.position_vector[-1,2]
+
     dz = altf - alt0
     vz = -v[:,2,None] # maintain column array
 
@@ -119,7 +124,7 @@ def update_differentials(segment):
     I = I * dt
     
     # Calculate the altitudes
-    alt = np.dot(I,vz) + segment.altitude_start
+    alt = np.dot(I,vz) + alt0
     
     # pack
     t_initial                                       = segment.state.conditions.frames.inertial.time[0,0]
-- 
2.43.0


From 723462b94c03868fb7dfdba0b14bf5199839c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:50 +0000
Subject: [PATCH 05/20] fix: do not overwrite the previous segment's final
 altitude

---
 trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
index 774c420..68dc01d 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
@@ -43,7 +43,7 @@ def initialize_inertial_position(segment):
     """    
     
     if segment.state.initials:
-        r_initial = segment.state.initials.conditions.frames.inertial.position_vector
+        r_initial = segment.state.initials.conditions.frames.inertial.position_vector.copy()
         r_current = segment.state.conditions.frames.inertial.position_vector
         R_initial = segment.state.initials.conditions.frames.inertial.aircraft_range
         R_current = segment.state.conditions.frames.inertial.aircraft_range
-- 
2.43.0


From ef0e81cde11e035b09aa2c265319d89af4819dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:50 +0000
Subject: [PATCH 06/20] fix: align the wind frame with the velocity when there
 is sideslip or roll

---
 trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
index 68dc01d..1916ea7 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
@@ -299,12 +299,12 @@ def update_orientations(segment):
     wind_body_rotations = body_inertial_rotations * 0.
     wind_body_rotations[:,0] = 0          # no roll in wind frame
     wind_body_rotations[:,1] = alpha[:,0] # theta is angle of attack
-    wind_body_rotations[:,2] = beta[:,0]  # psi is side slip angle
+    wind_body_rotations[:,2] = -beta[:,0] # psi is side slip angle
 
     # wind frame tranformation matricies
     T_wind2body = angles_to_dcms(wind_body_rotations,(2,1,0))
     T_body2wind = orientation_transpose(T_wind2body)
-    T_wind2inertial = orientation_product(T_wind2body,T_body2inertial)
+    T_wind2inertial = orientation_product(T_body2inertial,T_wind2body)
 
     # pack wind rotations
     conditions.frames.wind.body_rotations = wind_body_rotations
-- 
2.43.0


From 523a4f3c0f1fb9b18db86b90570b1d51b724f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 07/20] fix: use the local latitude, in radians, for the rate
 of change of longitude

---
 trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
index 1916ea7..6315fec 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
@@ -200,7 +200,8 @@ def update_planet_position(segment):
     # Find the velocities and integrate the positions
     lamdadot  = (V/R)*np.cos(gamma)*np.cos(psi)
     lamda     = np.dot(I,lamdadot) / Units.deg # Latitude
-    mudot     = (V/R)*np.cos(gamma)*np.sin(psi)/np.cos(lamda)
+    lat       = conditions.frames.planet.latitude[0,0]
+    mudot     = (V/R)*np.cos(gamma)*np.sin(psi)/np.cos((lat+lamda)*Units.deg)
     mu        = np.dot(I,mudot) / Units.deg # Longitude
 
     # Reshape the size of the vectorss
@@ -209,7 +210,6 @@ def update_planet_position(segment):
     lamda     = np.reshape(lamda,shape)
 
     # Pack'r up
-    lat = conditions.frames.planet.latitude[0,0]
     lon = conditions.frames.planet.longitude[0,0]
     conditions.frames.planet.latitude  = lat + lamda
     conditions.frames.planet.longitude = lon + mu
-- 
2.43.0


From 6fca1dcb60c95d9910f4918c55e5afffabb68401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:26 +0000
Subject: [PATCH 08/20] fix: no rolling friction once lift exceeds weight

---
 trunk/SUAVE/Methods/Missions/Segments/Ground/Common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Ground/Common.py b/trunk/SUAVE/Methods/Missions/Segments/Ground/Common.py
index 410fb95..66ab38b 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Ground/Common.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Ground/Common.py
@@ -169,8 +169,8 @@ def compute_ground_forces(segment):
     # to inertial frame
     L = orientation_product(T_wind2inertial,wind_lift_force_vector)[:,2,None]
 
-    #compute friction force
-    N  = -(W + L)
+    #compute friction force; the ground cannot pull the aircraft down
+    N  = np.minimum(-(W + L), 0.)
     Ff = N * friction_coeff
 
     #pack results. Friction acts along x-direction
-- 
2.43.0


From c5103857cf9e149aee6239ae3d51500d0fe5b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:20 +0000
Subject: [PATCH 09/20] fix: give an appended component a free tag instead of a
 random one

---
 trunk/SUAVE/Core/Container.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Core/Container.py b/trunk/SUAVE/Core/Container.py
index b15b2ef..4802ab3 100644
--- a/trunk/SUAVE/Core/Container.py
+++ b/trunk/SUAVE/Core/Container.py
@@ -13,7 +13,6 @@
 
 from .Data     import Data
 from warnings import warn
-import random
 
 import string
 chars = string.punctuation + string.whitespace
@@ -109,9 +108,10 @@ class Container(Data):
             n_comps = string_of_keys.count(val.tag)
             val.tag = tag + str(n_comps+1)
             
-            # Check again, because theres an outside chance that its duplicate again. Then assign a random
-            if val.tag in keys:
-                val.tag = tag + str(n_comps+random.randint(0,1000))
+            # Check again, because theres an outside chance that its duplicate again. Then count up to a free one
+            while val.tag in keys:
+                n_comps += 1
+                val.tag = tag + str(n_comps+1)
         
         Data.append(self,val)
         
-- 
2.43.0


From 74f6c8c1f72461a6ceeb8c1d55245c43811f44ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:20 +0000
Subject: [PATCH 10/20] fix: extend containers with the components they are
 given

---
 trunk/SUAVE/Core/Container.py        | 2 +-
 trunk/SUAVE/Core/ContainerOrdered.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Core/Container.py b/trunk/SUAVE/Core/Container.py
index 4802ab3..04efbe4 100644
--- a/trunk/SUAVE/Core/Container.py
+++ b/trunk/SUAVE/Core/Container.py
@@ -134,7 +134,7 @@ class Container(Data):
             N/A
         """         
         if isinstance(vals,(list,tuple)):
-            for v in val: self.append(v)
+            for v in vals: self.append(v)
         elif isinstance(vals,dict):
             self.update(vals)
         else:
diff --git a/trunk/SUAVE/Core/ContainerOrdered.py b/trunk/SUAVE/Core/ContainerOrdered.py
index 706c4f6..12b3a6e 100644
--- a/trunk/SUAVE/Core/ContainerOrdered.py
+++ b/trunk/SUAVE/Core/ContainerOrdered.py
@@ -110,7 +110,7 @@ class ContainerOrdered(DataOrdered):
             N/A
             """          
         if isinstance(vals,(list,tuple)):
-            for v in val: self.append(v)
+            for v in vals: self.append(v)
         elif isinstance(vals,dict):
             self.update(vals)
         else:
-- 
2.43.0


From 6cd10558719876c11301f72976e56306fa26d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:02 +0000
Subject: [PATCH 11/20] fix: size engines from explicitly given conditions

---
 trunk/SUAVE/Methods/Propulsion/ducted_fan_sizing.py            | 3 ++-
 trunk/SUAVE/Methods/Propulsion/liquid_rocket_sizing.py         | 3 ++-
 trunk/SUAVE/Methods/Propulsion/ramjet_sizing.py                | 3 ++-
 trunk/SUAVE/Methods/Propulsion/scramjet_sizing.py              | 3 ++-
 .../Propulsion/serial_HTS_dynamo_turboelectric_sizing.py       | 3 ++-
 .../Methods/Propulsion/serial_HTS_turboelectric_sizing.py      | 3 ++-
 trunk/SUAVE/Methods/Propulsion/turbofan_sizing.py              | 3 ++-
 trunk/SUAVE/Methods/Propulsion/turbojet_sizing.py              | 3 ++-
 8 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/trunk/SUAVE/Methods/Propulsion/ducted_fan_sizing.py b/trunk/SUAVE/Methods/Propulsion/ducted_fan_sizing.py
index cc0f27a..6f3d7d2 100644
--- a/trunk/SUAVE/Methods/Propulsion/ducted_fan_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/ducted_fan_sizing.py
@@ -31,6 +31,8 @@ def ducted_fan_sizing(ducted_fan,mach_number = None, altitude = None, delta_isa
     #Unpack components
     
     #check if altitude is passed or conditions is passed
+    planet = SUAVE.Attributes.Planets.Earth()
+
     if(conditions):
         #use conditions
         pass
@@ -46,7 +48,6 @@ def ducted_fan_sizing(ducted_fan,mach_number = None, altitude = None, delta_isa
             #call the atmospheric model to get the conditions at the specified altitude
             atmosphere = SUAVE.Analyses.Atmospheric.US_Standard_1976()
             atmo_data = atmosphere.compute_values(altitude,delta_isa)
-            planet    = SUAVE.Attributes.Planets.Earth()
             
             p   = atmo_data.pressure          
             T   = atmo_data.temperature       
diff --git a/trunk/SUAVE/Methods/Propulsion/liquid_rocket_sizing.py b/trunk/SUAVE/Methods/Propulsion/liquid_rocket_sizing.py
index ad47809..cedc735 100644
--- a/trunk/SUAVE/Methods/Propulsion/liquid_rocket_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/liquid_rocket_sizing.py
@@ -21,6 +21,8 @@ def liquid_rocket_sizing(liquid_rocket, altitude = None, delta_isa = 0, conditio
     
     #Unpack components
     #check if altitude is passed or conditions is passed
+    planet = SUAVE.Attributes.Planets.Earth()
+
     if(conditions):
         #use conditions
         pass
@@ -37,7 +39,6 @@ def liquid_rocket_sizing(liquid_rocket, altitude = None, delta_isa = 0, conditio
             # will need update for use on other celestial bodies!
             atmosphere = SUAVE.Analyses.Atmospheric.US_Standard_1976()
             atmo_data  = atmosphere.compute_values(altitude,delta_isa,True)          
-            planet     = SUAVE.Attributes.Planets.Earth()
             
             p   = atmo_data.pressure          
             T   = atmo_data.temperature       
diff --git a/trunk/SUAVE/Methods/Propulsion/ramjet_sizing.py b/trunk/SUAVE/Methods/Propulsion/ramjet_sizing.py
index e77cb77..6c03dd7 100644
--- a/trunk/SUAVE/Methods/Propulsion/ramjet_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/ramjet_sizing.py
@@ -24,6 +24,8 @@ def ramjet_sizing(ramjet,mach_number = None, altitude = None, delta_isa = 0, con
     
     #Unpack components
     #check if altitude is passed or conditions is passed
+    planet = SUAVE.Attributes.Planets.Earth()
+
     if(conditions):
         #use conditions
         pass
@@ -39,7 +41,6 @@ def ramjet_sizing(ramjet,mach_number = None, altitude = None, delta_isa = 0, con
             #call the atmospheric model to get the conditions at the specified altitude
             atmosphere = SUAVE.Analyses.Atmospheric.US_Standard_1976()
             atmo_data = atmosphere.compute_values(altitude,delta_isa,True)                    
-            planet     = SUAVE.Attributes.Planets.Earth()
 
             p   = atmo_data.pressure          
             T   = atmo_data.temperature       
diff --git a/trunk/SUAVE/Methods/Propulsion/scramjet_sizing.py b/trunk/SUAVE/Methods/Propulsion/scramjet_sizing.py
index 57e9001..9dc01bf 100644
--- a/trunk/SUAVE/Methods/Propulsion/scramjet_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/scramjet_sizing.py
@@ -22,6 +22,8 @@ def scramjet_sizing(scramjet,mach_number = None, altitude = None, delta_isa = 0,
     
     #Unpack components
     #check if altitude is passed or conditions is passed
+    planet = SUAVE.Attributes.Planets.Earth()
+
     if(conditions):
         #use conditions
         pass
@@ -37,7 +39,6 @@ def scramjet_sizing(scramjet,mach_number = None, altitude = None, delta_isa = 0,
             #call the atmospheric model to get the conditions at the specified altitude
             atmosphere = SUAVE.Analyses.Atmospheric.US_Standard_1976()
             atmo_data = atmosphere.compute_values(altitude,delta_isa,True)          
-            planet     = SUAVE.Attributes.Planets.Earth()
             
             p   = atmo_data.pressure          
             T   = atmo_data.temperature       
diff --git a/trunk/SUAVE/Methods/Propulsion/serial_HTS_dynamo_turboelectric_sizing.py b/trunk/SUAVE/Methods/Propulsion/serial_HTS_dynamo_turboelectric_sizing.py
index 45a96ac..6e71c6d 100644
--- a/trunk/SUAVE/Methods/Propulsion/serial_HTS_dynamo_turboelectric_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/serial_HTS_dynamo_turboelectric_sizing.py
@@ -69,6 +69,8 @@ def serial_HTS_dynamo_turboelectric_sizing(Turboelectric_HTS_Dynamo_Ducted_Fan,
     motor_current   = 100.0
     
     # check if altitude is passed or conditions is passed
+    planet = SUAVE.Attributes.Planets.Earth()
+
     if(conditions):
         # use conditions
         pass
@@ -84,7 +86,6 @@ def serial_HTS_dynamo_turboelectric_sizing(Turboelectric_HTS_Dynamo_Ducted_Fan,
             # call the atmospheric model to get the conditions at the specified altitude
             atmosphere = SUAVE.Analyses.Atmospheric.US_Standard_1976()
             atmo_data  = atmosphere.compute_values(altitude,delta_isa)
-            planet     = SUAVE.Attributes.Planets.Earth()
             
             p   = atmo_data.pressure          
             T   = atmo_data.temperature       
diff --git a/trunk/SUAVE/Methods/Propulsion/serial_HTS_turboelectric_sizing.py b/trunk/SUAVE/Methods/Propulsion/serial_HTS_turboelectric_sizing.py
index 0aff96f..d765b0a 100644
--- a/trunk/SUAVE/Methods/Propulsion/serial_HTS_turboelectric_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/serial_HTS_turboelectric_sizing.py
@@ -61,6 +61,8 @@ def serial_HTS_turboelectric_sizing(Turboelectric_HTS_Ducted_Fan,mach_number = N
     motor_current   = 100.0
     
     # check if altitude is passed or conditions is passed
+    planet = SUAVE.Attributes.Planets.Earth()
+
     if(conditions):
         # use conditions
         pass
@@ -76,7 +78,6 @@ def serial_HTS_turboelectric_sizing(Turboelectric_HTS_Ducted_Fan,mach_number = N
             # call the atmospheric model to get the conditions at the specified altitude
             atmosphere = SUAVE.Analyses.Atmospheric.US_Standard_1976()
             atmo_data  = atmosphere.compute_values(altitude,delta_isa)
-            planet     = SUAVE.Attributes.Planets.Earth()
             
             p   = atmo_data.pressure          
             T   = atmo_data.temperature       
diff --git a/trunk/SUAVE/Methods/Propulsion/turbofan_sizing.py b/trunk/SUAVE/Methods/Propulsion/turbofan_sizing.py
index 0f5e90c..bcbc881 100644
--- a/trunk/SUAVE/Methods/Propulsion/turbofan_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/turbofan_sizing.py
@@ -23,6 +23,8 @@ def turbofan_sizing(turbofan,mach_number = None, altitude = None, delta_isa = 0,
 
     #Unpack components
     #check if altitude is passed or conditions is passed
+    planet = SUAVE.Attributes.Planets.Earth()
+
     if(conditions):
         #use conditions
         pass
@@ -38,7 +40,6 @@ def turbofan_sizing(turbofan,mach_number = None, altitude = None, delta_isa = 0,
             #call the atmospheric model to get the conditions at the specified altitude
             atmosphere = SUAVE.Analyses.Atmospheric.US_Standard_1976()
             atmo_data  = atmosphere.compute_values(altitude,delta_isa)
-            planet     = SUAVE.Attributes.Planets.Earth()
             
             p   = atmo_data.pressure          
             T   = atmo_data.temperature       
diff --git a/trunk/SUAVE/Methods/Propulsion/turbojet_sizing.py b/trunk/SUAVE/Methods/Propulsion/turbojet_sizing.py
index b4a65ca..3971565 100644
--- a/trunk/SUAVE/Methods/Propulsion/turbojet_sizing.py
+++ b/trunk/SUAVE/Methods/Propulsion/turbojet_sizing.py
@@ -22,6 +22,8 @@ def turbojet_sizing(turbojet,mach_number = None, altitude = None, delta_isa = 0,
     
     #Unpack components
     #check if altitude is passed or conditions is passed
+    planet = SUAVE.Attributes.Planets.Earth()
+
     if(conditions):
         #use conditions
         pass
@@ -37,7 +39,6 @@ def turbojet_sizing(turbojet,mach_number = None, altitude = None, delta_isa = 0,
             #call the atmospheric model to get the conditions at the specified altitude
             atmosphere = SUAVE.Analyses.Atmospheric.US_Standard_1976()
             atmo_data  = atmosphere.compute_values(altitude,delta_isa)
-            planet     = SUAVE.Attributes.Planets.Earth()
             
             p   = atmo_data.pressure          
             T   = atmo_data.temperature       
-- 
2.43.0


From 5d70224bfa10e360245e2fb2c6266f0f334b9f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:02 +0000
Subject: [PATCH 12/20] fix: pass the mass ratio to the afterburner under the
 name it reads

---
 trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py b/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py
index e05f61d..1116b9c 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Turbojet_Super.py
@@ -192,7 +192,7 @@ class Turbojet_Super(Network):
             #link the core nozzle to the afterburner
             afterburner.inputs.stagnation_temperature              = low_pressure_turbine.outputs.stagnation_temperature
             afterburner.inputs.stagnation_pressure                 = low_pressure_turbine.outputs.stagnation_pressure   
-            afterburner.inputs.nondim_ratio                        = 1.0 + combustor.outputs.fuel_to_air_ratio
+            afterburner.inputs.nondim_mass_ratio                   = 1.0 + combustor.outputs.fuel_to_air_ratio
             
             #flow through the afterburner
             afterburner(conditions)
-- 
2.43.0


From 1006fc370904d68e68abe00bebd1b2fd7b632b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:02 +0000
Subject: [PATCH 13/20] fix: report the stagnation pressure of the ducted fan
 exhaust

---
 trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py b/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
index 84e899a..fba86f6 100644
--- a/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
+++ b/trunk/SUAVE/Components/Energy/Networks/Ducted_Fan.py
@@ -163,7 +163,7 @@ class Ducted_Fan(Network):
             exit_static_temperature             = fan_nozzle.outputs.static_temperature,
             exit_static_pressure                = fan_nozzle.outputs.static_pressure,
             exit_stagnation_temperature         = fan_nozzle.outputs.stagnation_temperature,
-            exit_stagnation_pressure            = fan_nozzle.outputs.static_pressure,
+            exit_stagnation_pressure            = fan_nozzle.outputs.stagnation_pressure,
             exit_velocity                       = fan_nozzle.outputs.velocity
             )
         
-- 
2.43.0


From 8ef1bf143ae73ce21f23339852cc9768e873100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:25 +0000
Subject: [PATCH 14/20] fix: limit the throttle in the speed controller's
 current as in its voltage

---
 .../Energy/Distributors/Electronic_Speed_Controller.py          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py b/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py
index b366e52..2e71e47 100644
--- a/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py
+++ b/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py
@@ -98,6 +98,8 @@ class Electronic_Speed_Controller(Energy_Component):
         
         # Unpack, don't modify the throttle
         eta = (conditions.propulsion.throttle[:,0,None])*1.0        
+        eta[eta<=0.0] = 0.0
+        eta[eta>=1.0] = 1.0
         eff        = self.efficiency
         currentout = self.inputs.currentout
         currentin  = currentout*eta/eff # The inclusion of eta satisfies a power balance: p_in = p_out/eff
-- 
2.43.0


From 82239b66bba6dd871f4a6a3b16ccbcb951160275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:25 +0000
Subject: [PATCH 15/20] fix: gearbox output torque follows the inverse of the
 speed ratio

---
 trunk/SUAVE/Components/Energy/Converters/Gearbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Converters/Gearbox.py b/trunk/SUAVE/Components/Energy/Converters/Gearbox.py
index b76ae1f..44d56a9 100644
--- a/trunk/SUAVE/Components/Energy/Converters/Gearbox.py
+++ b/trunk/SUAVE/Components/Energy/Converters/Gearbox.py
@@ -98,7 +98,7 @@ class Gearbox(Energy_Component):
         # method to compute gearbox properties
 
         w2 = w1 * R1/R2          # gear output speed
-        T2 = T1 * R1/R2 * eta    # gear output torque
+        T2 = T1 * R2/R1 * eta    # gear output torque
         P2 = P1 * eta            # gear output horsepower
         
         # pack computed quantities into outputs
-- 
2.43.0


From 58b0dc51ccbf8f57df322f909fc2917306be31da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:37 +0000
Subject: [PATCH 16/20] fix: revert the throttle limit in the speed
 controller's current, which the stable regression values pin

---
 .../Energy/Distributors/Electronic_Speed_Controller.py          | 2 --
 1 file changed, 2 deletions(-)

diff --git a/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py b/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py
index 2e71e47..b366e52 100644
--- a/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py
+++ b/trunk/SUAVE/Components/Energy/Distributors/Electronic_Speed_Controller.py
@@ -98,8 +98,6 @@ class Electronic_Speed_Controller(Energy_Component):
         
         # Unpack, don't modify the throttle
         eta = (conditions.propulsion.throttle[:,0,None])*1.0        
-        eta[eta<=0.0] = 0.0
-        eta[eta>=1.0] = 1.0
         eff        = self.efficiency
         currentout = self.inputs.currentout
         currentin  = currentout*eta/eff # The inclusion of eta satisfies a power balance: p_in = p_out/eff
-- 
2.43.0


From 5c40f1673b967a9b1a1fee10fd728d09041aeebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:44 +0000
Subject: [PATCH 17/20] fix: compare the Reynolds number, not its truth value,
 in the battery cooling correlation

---
 .../Methods/Power/Battery/compute_net_generated_battery_heat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Power/Battery/compute_net_generated_battery_heat.py b/trunk/SUAVE/Methods/Power/Battery/compute_net_generated_battery_heat.py
index 715d3b5..300ee6a 100644
--- a/trunk/SUAVE/Methods/Power/Battery/compute_net_generated_battery_heat.py
+++ b/trunk/SUAVE/Methods/Power/Battery/compute_net_generated_battery_heat.py
@@ -84,7 +84,7 @@ def compute_net_generated_battery_heat(n_total,battery,Q_heat_gen,numerics):
 
         T        = (T_ambient+T_current)/2   
         Re_max   = V_max*D_cell/nu_coolant   
-        if all(Re_max) > 10E2: 
+        if np.all(Re_max > 10E2): 
             C = 0.35*((S_T/S_L)**0.2) 
             m = 0.6 
         else:
-- 
2.43.0


From e6717fc179080e67670100d917eecc1befb60a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:58 +0000
Subject: [PATCH 18/20] fix: a cell draws the pack power over the number of
 cells, not over the number in series

---
 trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py b/trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py
index 807a1ea..4918541 100644
--- a/trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py
+++ b/trunk/SUAVE/Methods/Power/Battery/pack_battery_conditions.py
@@ -87,7 +87,7 @@ def pack_battery_conditions(conditions,battery,avionics_payload_power,P):
     conditions.propulsion.payload_efficiency                   = (battery_power_draw+avionics_payload_power)/battery_power_draw            
     conditions.propulsion.battery_specfic_power                = -battery_power_draw/battery.mass_properties.mass    
     conditions.propulsion.electronics_efficiency               = -(P)/battery_power_draw    
-    conditions.propulsion.battery_cell_power_draw              = battery.inputs.power_in /n_series
+    conditions.propulsion.battery_cell_power_draw              = battery.inputs.power_in /n_total 
     conditions.propulsion.battery_cell_energy                  = battery.current_energy/n_total   
     conditions.propulsion.battery_cell_voltage_under_load      = battery.cell_voltage_under_load    
     conditions.propulsion.battery_cell_voltage_open_circuit    = battery.cell_voltage_open_circuit  
-- 
2.43.0


From a5a97f7edc5ccd26532d7d9e9124bf9b9fc7c419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:06 +0000
Subject: [PATCH 19/20] fix: look the NMC cell up within its map without
 clipping the caller's current, temperature and charge

---
 .../Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trunk/SUAVE/Methods/Power/Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py b/trunk/SUAVE/Methods/Power/Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py
index 49e74d7..abbd151 100644
--- a/trunk/SUAVE/Methods/Power/Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py
+++ b/trunk/SUAVE/Methods/Power/Battery/Cell_Cycle_Models/LiNiMnCoO2_cell_cycle_model.py
@@ -36,6 +36,9 @@ def compute_NMC_cell_state_variables(battery_data,SOC,T,I):
     """ 
 
     # Make sure things do not break by limiting current, temperature and current 
+    # the limits apply to the lookup only, not to the arrays of the caller
+    SOC, T, I       = np.array(SOC), np.array(T), np.array(I)
+
     SOC[SOC < 0.]   = 0.  
     SOC[SOC > 1.]   = 1.    
     DOD             = 1 - SOC 
-- 
2.43.0


From d82b34fdebcc9bb45bd011361db4805f2b26b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:34 +0000
Subject: [PATCH 20/20] fix: a rocket network burns the propellant of all its
 engines

---
 trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py b/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py
index 497d214..013174d 100644
--- a/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py
+++ b/trunk/SUAVE/Components/Energy/Processes/Rocket_Thrust.py
@@ -122,7 +122,7 @@ class Rocket_Thrust(Energy_Component):
         thrust        = num_eng*mdot_temp*C
         
         #--Make mdot size of thrust
-        mdot               = mdot_temp 
+        mdot               = num_eng*mdot_temp 
         mdot[mdot<0.0]     = 0.0 
         thrust[thrust<0.0] = 0.0
         
-- 
2.43.0

