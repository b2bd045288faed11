From f7da2ec2a1281a7d470942bc885b30d3cf02583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:20 +0000
Subject: [PATCH 01/13] fix: read radiative cooling capacity where the
 initializer writes it

make_pre_calc_parameters looked up equipment.cooling.max_capacity (KeyError for every room with
radiant cooling; the initializer writes equipment.cooling.radiative.max_capacity) and required
q_min/q_max/v_min/v_max although a room without convective cooling has none.  Rooms without
convective cooling now get zero capacity and are not dehumidified.
---
 heat_load_calc/core/heat_exchanger.py      |  3 ++-
 heat_load_calc/core/pre_calc_parameters.py | 12 +++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/heat_load_calc/core/heat_exchanger.py b/heat_load_calc/core/heat_exchanger.py
index 3b66479..1fb19c4 100644
--- a/heat_load_calc/core/heat_exchanger.py
+++ b/heat_load_calc/core/heat_exchanger.py
@@ -11,7 +11,8 @@ def get_dehumid_coeff(lcs_is_n, theta_r_is_npls, rac_spec, x_r_non_dh_is_n):
     # 以下の取り扱いを簡単にするため（冷房負荷を正とするため）、正負を反転させる
     qs_is_n = -lcs_is_n
 
-    dh = qs_is_n > 1.0e-3
+    # 対流冷房が設置されていない室（最大能力が0）では除湿しない。
+    dh = (qs_is_n > 1.0e-3) & (rac_spec['q_max'] > 0.0)
 
     v_ac_is_n = np.zeros_like(lcs_is_n, dtype=float)
 
diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index c76f653..636723a 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -277,7 +277,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     for i, s in enumerate(ss):
         if s['equipment']['cooling']['radiative']['installed']:
             is_radiative_cooling_is_list.append(True)
-            radiative_cooling_max_capacity_is_list.append(s['equipment']['cooling']['max_capacity'])
+            radiative_cooling_max_capacity_is_list.append(s['equipment']['cooling']['radiative']['max_capacity'])
         else:
             is_radiative_cooling_is_list.append(False)
             radiative_cooling_max_capacity_is_list.append(0.0)
@@ -287,10 +287,12 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
     is_radiative_cooling_is = np.array(is_radiative_cooling_is_list)
     lr_cs_max_cap_is = np.array(radiative_cooling_max_capacity_is_list)
 
-    qmin_c_is = np.array([s['equipment']['cooling']['convective']['q_min'] for s in ss]).reshape(-1, 1)
-    qmax_c_is = np.array([s['equipment']['cooling']['convective']['q_max'] for s in ss]).reshape(-1, 1)
-    Vmin_is = np.array([s['equipment']['cooling']['convective']['v_min'] for s in ss]).reshape(-1, 1)
-    Vmax_is = np.array([s['equipment']['cooling']['convective']['v_max'] for s in ss]).reshape(-1, 1)
+    # 対流冷房が設置されていない室は 0.0 とする（除湿を行わない）。
+    cooling_convective_is = [s['equipment']['cooling']['convective'] for s in ss]
+    qmin_c_is = np.array([c.get('q_min', 0.0) for c in cooling_convective_is]).reshape(-1, 1)
+    qmax_c_is = np.array([c.get('q_max', 0.0) for c in cooling_convective_is]).reshape(-1, 1)
+    Vmin_is = np.array([c.get('v_min', 0.0) for c in cooling_convective_is]).reshape(-1, 1)
+    Vmax_is = np.array([c.get('v_max', 0.0) for c in cooling_convective_is]).reshape(-1, 1)
 
     # endregion
 
-- 
2.43.0


From 2a265ba38cb8d6561f308b25aff5a755cb686ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 02/13] fix: keep view factors in boundary order when
 boundaries are not listed room by room

---
 heat_load_calc/core/shape_factor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/core/shape_factor.py b/heat_load_calc/core/shape_factor.py
index a5b73f0..a361e6f 100644
--- a/heat_load_calc/core/shape_factor.py
+++ b/heat_load_calc/core/shape_factor.py
@@ -23,9 +23,11 @@ def get_h_r_js(a_srf_js: np.ndarray, p_js_is: np.ndarray) -> np.ndarray:
 
     # 微小点に対する境界jの形態係数
     # 永田先生の方法
-    f_js = np.concatenate([
-        _get_f_i_js(a_srf_js=a_srf_js.flatten()[p_js_is[:, i] == 1])
-        for i in range(n_spaces)])
+    # 室ごとに計算した形態係数を、境界の並び順に戻して格納する。
+    f_js = np.zeros(p_js_is.shape[0], dtype=float)
+    for i in range(n_spaces):
+        is_connected = p_js_is[:, i] == 1
+        f_js[is_connected] = _get_f_i_js(a_srf_js=a_srf_js.flatten()[is_connected])
 
     # 境界間の放射熱伝達率を決定する際、平均放射温度を20℃固定値であるとして計算する。
     t_mrt = 273.15 + 20.0
-- 
2.43.0


From de51e8f18ef7211cbfa3853d3d9d10633adf1f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 03/13] fix: let ground boundaries see the annual mean
 temperature behind them

---
 heat_load_calc/initializer/boundary_simple.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heat_load_calc/initializer/boundary_simple.py b/heat_load_calc/initializer/boundary_simple.py
index 4d15b12..c06108e 100644
--- a/heat_load_calc/initializer/boundary_simple.py
+++ b/heat_load_calc/initializer/boundary_simple.py
@@ -110,6 +110,9 @@ def get_boundary_simple(theta_o_ns, i_dn_ns, i_sky_ns, r_n_ns, a_sun_ns, h_sun_n
     # 境界の種類が'external_general_part', 'external_transparent_part', 'external_opaque_part'の場合に定義される。
     if b['boundary_type'] in ['external_general_part', 'external_transparent_part', 'external_opaque_part']:
         h_td = float(b['temp_dif_coef'])
+    # 地盤の場合は、裏面温度（年平均外気温度）がそのまま作用する。
+    elif b['boundary_type'] == 'ground':
+        h_td = 1.0
     else:
         h_td = 0.0
 
-- 
2.43.0


From 604dc76d4cf443654238c5d97b714b823d010066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 04/13] fix: hand the steady deep-ground response over to the
 whole-building run-up

---
 heat_load_calc/core/conditions.py          | 7 +++++--
 heat_load_calc/core/core.py                | 3 ++-
 heat_load_calc/core/pre_calc_parameters.py | 4 ++++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/core/conditions.py b/heat_load_calc/core/conditions.py
index ff3238b..fd9c5f2 100644
--- a/heat_load_calc/core/conditions.py
+++ b/heat_load_calc/core/conditions.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 from heat_load_calc.core.operation_mode import OperationMode
-from heat_load_calc.core.pre_calc_parameters import PreCalcParameters
+from heat_load_calc.core.pre_calc_parameters import PreCalcParameters, PreCalcParametersGround
 from heat_load_calc.external import psychrometrics as psy
 
 
@@ -142,10 +142,13 @@ def initialize_ground_conditions(n_grounds: int):
     )
 
 
-def update_conditions_by_ground_conditions(is_ground: np.array, c: Conditions, gc: GroundConditions):
+def update_conditions_by_ground_conditions(is_ground: np.array, c: Conditions, gc: GroundConditions, ss: PreCalcParametersGround):
 
     c.theta_dsh_srf_a_js_ms_n[is_ground, :] = gc.theta_dsh_srf_a_js_ms_n
 
+    # 地盤のみの助走計算では裏面温度を年平均外気温度で一定としているため、貫流応答の項別成分はその定常値を引き継ぐ。
+    c.theta_dsh_srf_t_js_ms_n[is_ground, :] = ss.phi_t1_js_ms * ss.theta_o_ave / (1.0 - ss.r_js_ms)
+
     c.q_srf_js_n[is_ground, :] = gc.q_srf_js_n
 
     return c
diff --git a/heat_load_calc/core/core.py b/heat_load_calc/core/core.py
index 9c42906..f5387d8 100644
--- a/heat_load_calc/core/core.py
+++ b/heat_load_calc/core/core.py
@@ -73,7 +73,8 @@ def calc(
     c_n = conditions.update_conditions_by_ground_conditions(
         is_ground=pp.is_ground_js.flatten(),
         c=c_n,
-        gc=gc_n
+        gc=gc_n,
+        ss=ppg
     )
 
     print('助走計算（建物全体）')
diff --git a/heat_load_calc/core/pre_calc_parameters.py b/heat_load_calc/core/pre_calc_parameters.py
index 636723a..dd46683 100644
--- a/heat_load_calc/core/pre_calc_parameters.py
+++ b/heat_load_calc/core/pre_calc_parameters.py
@@ -199,6 +199,9 @@ class PreCalcParametersGround:
     # 地盤jの項別公比法における項mの吸熱応答係数の第一項 , m2K/W, [j, 12]
     phi_a1_js_ms: np.ndarray
 
+    # 地盤jの項別公比法における項mの貫流応答係数の第一項, [j, 12]
+    phi_t1_js_ms: np.ndarray
+
     # 地盤jにおける室内側放射熱伝達率, W/m2K, [j, 1]
     h_r_js: np.ndarray
 
@@ -615,6 +618,7 @@ def make_pre_calc_parameters(delta_t: float, data_directory: str) -> (PreCalcPar
         r_js_ms=r_js_ms[is_ground_js.flatten(), :],
         phi_a0_js=phi_a0_js[is_ground_js.flatten(), :],
         phi_a1_js_ms=phi_a1_js_ms[is_ground_js.flatten(), :],
+        phi_t1_js_ms=phi_t1_js_ms[is_ground_js.flatten(), :],
         h_r_js=h_r_js[is_ground_js.flatten(), :],
         h_c_js=h_c_js[is_ground_js.flatten(), :],
         theta_o_ns=theta_o_ns,
-- 
2.43.0


From 19c87bba19e98700d78e3944ccdbd6c92d95d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 05/13] fix: do not grow the layer lists when response factors
 are requested twice

---
 heat_load_calc/initializer/response_factor.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/heat_load_calc/initializer/response_factor.py b/heat_load_calc/initializer/response_factor.py
index ecbbc83..e852d9d 100644
--- a/heat_load_calc/initializer/response_factor.py
+++ b/heat_load_calc/initializer/response_factor.py
@@ -400,12 +400,10 @@ class ResponseFactorFactoryTransientEnvelope(ResponseFactorFactory):
 
         is_ground = False
 
-        c = self._cs
-        c.append(0.0)
+        c = self._cs + [0.0]
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
-        r.append(self._r_o)
+        r = self._rs + [self._r_o]
         r_layer_i_k_l = np.array(r)
 
         # 応答係数
@@ -433,12 +431,10 @@ class ResponseFactorFactoryTransientGround(ResponseFactorFactory):
 
         is_ground = True
 
-        c = self._cs
-        c.append(3300.0 * 3.0)
+        c = self._cs + [3300.0 * 3.0]
         c_layer_i_k_l = np.array(c) * 1000.0
 
-        r = self._rs
-        r.append(3.0 / 1.0)
+        r = self._rs + [3.0 / 1.0]
         r_layer_i_k_l = np.array(r)
 
         # 応答係数
-- 
2.43.0


From e056a987eecd71840c659d2e2a1023b840cc2409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 06/13] fix: do not round the inside influence of elements with
 a temperature difference coefficient

round(1 - coefficient, 1) turned e.g. 0.15 into an inside influence of 0.8 or 0.9,
so the outside and inside influences did not add up to one.
---
 heat_load_calc/initializer/initializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index a6fc2ea..da8fd1e 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -639,7 +639,7 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
             # 温度差係数が1.0でない場合はk_ei_jsに値を代入する。
             # id は自分自身の境界IDとし、自分自身の表面の影響は1.0から温度差係数を減じた値になる。
             if bs.h_td < 1.0:
-                k_ei_js.append({'id': bs.id, 'coef': round(1.0 - bs.h_td, 1)})
+                k_ei_js.append({'id': bs.id, 'coef': 1.0 - bs.h_td})
             else:
                 # 温度差係数が1.0の場合はNoneとする。
                 k_ei_js.append(None)
-- 
2.43.0


From 24e3c322de8251d12f7367d86388564784d2591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 07/13] fix: give the floor its share of the panel in rooms
 with radiant cooling only

Without radiant heating every share was zero, so radiant cooling reached no
surface and the load matrix of the room became singular.
---
 heat_load_calc/initializer/initializer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/heat_load_calc/initializer/initializer.py b/heat_load_calc/initializer/initializer.py
index da8fd1e..5e20383 100644
--- a/heat_load_calc/initializer/initializer.py
+++ b/heat_load_calc/initializer/initializer.py
@@ -661,8 +661,10 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
         )
 
     # 暖房設備仕様の読み込み
-    # 放射暖房有無（Trueなら放射暖房あり）
-    is_radiative_heating_is = [a22.read_is_radiative_heating(room) for room in rooms]
+    # 放射暖冷房有無（Trueなら放射暖房または放射冷房あり）
+    is_radiative_is = [
+        a22.read_is_radiative_heating(room) or a22.read_is_radiative_cooling(room) for room in rooms
+    ]
 
     # 放射暖房の発熱部位の設定（とりあえず床発熱） 表7
     # TODO: 発熱部位を指定して、面積按分するように変更すべき。
@@ -671,7 +673,7 @@ def _make_boundaries(bss2: List[BoundarySimple], rooms: List[Dict], boundaries:
         is_connected = np.array([bs.connected_room_id == i for bs in bss2])
         flr_js[is_connected] = a12.get_flr_i_js(
             area_i_js=np.array([bs.area for bs in np.array(bss2)[is_connected]]),
-            is_radiative_heating=is_radiative_heating_is[i],
+            is_radiative_heating=is_radiative_is[i],
             is_floor_i_js=np.array([bs.is_floor for bs in np.array(bss2)[is_connected]])
         )
 
-- 
2.43.0


From c6c5cd8e37e31efdbdc6b5c4ae1cef684a525a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:41 +0000
Subject: [PATCH 08/13] fix: parts facing neighbouring dwellings and open
 spaces in target-index conversion

The envelope of an attached dwelling could not be derived from target UA and eta-A
values: the partition floor types had no U value, the boundary floor was given the
boundary wall's, and windows that do not face the outdoors have no sunshade factor.
---
 heat_load_calc/convert/ees_house.py                | 12 ++++++++----
 .../convert/get_u_psi_eta_from_u_a_and_eta_a.py    | 14 +++++++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/heat_load_calc/convert/ees_house.py b/heat_load_calc/convert/ees_house.py
index b94fd24..7fbc5a7 100644
--- a/heat_load_calc/convert/ees_house.py
+++ b/heat_load_calc/convert/ees_house.py
@@ -1696,10 +1696,14 @@ class Window(WindowNoSpec, IGetQ, IGetM):
         return self._window_spec.get_eta_d(season=season)
 
     def get_m(self, region: int, season: str) -> float:
-        return self.get_eta_d(season=season) \
-               * self.area \
-               * self.sunshade.get_f(region=region, season=season, direction=self.direction) \
-               * self.get_nu(region=region, season=season)
+
+        if self.next_space == NextSpace.OUTDOOR:
+            return self.get_eta_d(season=season) \
+                   * self.area \
+                   * self.sunshade.get_f(region=region, season=season, direction=self.direction) \
+                   * self.get_nu(region=region, season=season)
+        else:
+            return 0.0
 
     def get_as_dict(self):
 
diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index 521ab5e..45e24d3 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -34,6 +34,7 @@ def get_u_psi(u_psi: PartType, key: str) -> float:
         U値又はψ値, W/m2K or W/mK
     """
 
+    # 戸境床については、一般部位の種類の名称（upward_boundary_floor / downward_boundary_floor）でも参照できるようにする。
     return {
         'roof': u_psi.roof,
         'ceiling': u_psi.ceiling,
@@ -41,7 +42,9 @@ def get_u_psi(u_psi: PartType, key: str) -> float:
         'floor': u_psi.floor,
         'boundary_ceiling': u_psi.boundary_ceiling,
         'boundary_wall': u_psi.boundary_wall,
-        'boundary_floor': u_psi.boundary_wall,
+        'boundary_floor': u_psi.boundary_floor,
+        'upward_boundary_floor': u_psi.boundary_ceiling,
+        'downward_boundary_floor': u_psi.boundary_floor,
         'window': u_psi.window,
         'door': u_psi.door,
         'earthfloor_perimeter': u_psi.earthfloor_perimeter,
@@ -192,13 +195,15 @@ def get_m_opq(
         不透明部位のm値の合計, W/K （暖房期・冷房期）
     """
 
+    u_psi = PartType(**u_psi_value)
+
     m_opq_h_general_part = sum([
-        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='heating')
+        s.area * 0.034 * get_u_psi(u_psi, s.general_part_type.value) * s.get_nu(region=region, season='heating')
         for s in gps
     ])
 
     m_opq_c_general_part = sum([
-        s.area * 0.034 * u_psi_value[s.general_part_type.value] * s.get_nu(region=region, season='cooling')
+        s.area * 0.034 * get_u_psi(u_psi, s.general_part_type.value) * s.get_nu(region=region, season='cooling')
         for s in gps
     ])
 
@@ -227,6 +232,9 @@ def get_eta_d_each(
         η_d,h・η_d,c 値, (W/m2)/(W/m2)
     """
 
+    # 日射熱取得に寄与するのは外気に面する窓のみである。
+    ws = [s for s in ws if s.next_space == NextSpace.OUTDOOR]
+
     sum_a_f_nu_h = sum(
         s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating') for s in ws
     )
-- 
2.43.0


From 76acf2f76d657d404feff9aa26007b5a05cec193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:47 +0000
Subject: [PATCH 09/13] fix: target-index conversion in region 8, which has no
 heating season

---
 .../get_u_psi_eta_from_u_a_and_eta_a.py       | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
index 45e24d3..428addd 100644
--- a/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
+++ b/heat_load_calc/convert/get_u_psi_eta_from_u_a_and_eta_a.py
@@ -197,7 +197,7 @@ def get_m_opq(
 
     u_psi = PartType(**u_psi_value)
 
-    m_opq_h_general_part = sum([
+    m_opq_h_general_part = 0.0 if region == 8 else sum([
         s.area * 0.034 * get_u_psi(u_psi, s.general_part_type.value) * s.get_nu(region=region, season='heating')
         for s in gps
     ])
@@ -207,7 +207,8 @@ def get_m_opq(
         for s in gps
     ])
 
-    m_opq_h_door = sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='heating') for s in ds])
+    # 8地域には暖房期がない。
+    m_opq_h_door = 0.0 if region == 8 else sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='heating') for s in ds])
 
     m_opq_c_door = sum([s.area * 0.034 * u_psi_value['door'] * s.get_nu(region=region, season='cooling') for s in ds])
 
@@ -235,18 +236,23 @@ def get_eta_d_each(
     # 日射熱取得に寄与するのは外気に面する窓のみである。
     ws = [s for s in ws if s.next_space == NextSpace.OUTDOOR]
 
-    sum_a_f_nu_h = sum(
-        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating') for s in ws
-    )
-
     sum_a_f_nu_c = sum(
         s.area * s.get_f(region=region, season='cooling') * s.get_nu(region=region, season='cooling') for s in ws
     )
 
-    eta_d_h = np.clip((m_h - m_h_opq) / sum_a_f_nu_h, 0.0, 0.88)
-    eta_d_c = np.clip((m_c - m_c_opq) / sum_a_f_nu_c, 0.0, 0.88)
+    eta_d_c = float(np.clip((m_c - m_c_opq) / sum_a_f_nu_c, 0.0, 0.88))
+
+    # 8地域には暖房期がないため、暖房期のηd値は定義できない。
+    if region == 8:
+        return None, eta_d_c
+
+    sum_a_f_nu_h = sum(
+        s.area * s.get_f(region=region, season='heating') * s.get_nu(region=region, season='heating') for s in ws
+    )
+
+    eta_d_h = float(np.clip((m_h - m_h_opq) / sum_a_f_nu_h, 0.0, 0.88))
 
-    return float(eta_d_h), float(eta_d_c)
+    return eta_d_h, eta_d_c
 
 
 def get_eta_d(region: int, eta_d_h: float, eta_d_c: float) -> float:
@@ -300,7 +306,8 @@ def calc_parts_spec(
     q = _get_q(a_evp_total=a_evp_total, u_a=u_a_target)
 
     # m値, W/(W/m2)
-    m_h = _get_m_h(a_evp_total=a_evp_total, eta_a_h=eta_a_h_target)
+    # 8地域には暖房期がないため、m_h値は定義できない。
+    m_h = None if region == 8 else _get_m_h(a_evp_total=a_evp_total, eta_a_h=eta_a_h_target)
     m_c = _get_m_c(a_evp_total=a_evp_total, eta_a_c=eta_a_c_target)
 
     # 各部位の基準U値・ψ値に対するq値, W/K
-- 
2.43.0


From 7d2ba9bed39c81892d55371407162cffa694d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:14 +0000
Subject: [PATCH 10/13] fix: sunshade descriptions: return the parsed sunshade,
 write the geometry where it is read

make_sunshade_transient raised the object it had built for 'not_exist' and 'complex', and
get_as_dict put the geometry under 'spec' although it is read (and specified) flat.
---
 heat_load_calc/convert/factor_f.py | 48 ++++++++++++++----------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/heat_load_calc/convert/factor_f.py b/heat_load_calc/convert/factor_f.py
index 13b25ac..10dcbdf 100644
--- a/heat_load_calc/convert/factor_f.py
+++ b/heat_load_calc/convert/factor_f.py
@@ -241,18 +241,16 @@ class SunshadeOpaqueInput(SunshadeOpaque):
         return {
             'is_defined': True,
             'input': 'complex',
-            'spec': {
-                'x1': self._sunshade_complex_kernel.x1,
-                'x2': self._sunshade_complex_kernel.x2,
-                'x3': self._sunshade_complex_kernel.x3,
-                'y1': self._sunshade_complex_kernel.y1,
-                'y2': self._sunshade_complex_kernel.y2,
-                'y3': self._sunshade_complex_kernel.y3,
-                'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
-                'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
-                'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
-                'z_y_mns': self._sunshade_complex_kernel.z_y_mns
-            }
+            'x1': self._sunshade_complex_kernel.x1,
+            'x2': self._sunshade_complex_kernel.x2,
+            'x3': self._sunshade_complex_kernel.x3,
+            'y1': self._sunshade_complex_kernel.y1,
+            'y2': self._sunshade_complex_kernel.y2,
+            'y3': self._sunshade_complex_kernel.y3,
+            'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
+            'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
+            'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
+            'z_y_mns': self._sunshade_complex_kernel.z_y_mns
         }
 
     def make_initializer_dict(self):
@@ -293,11 +291,11 @@ class SunshadeTransient:
             if d['input'] == 'not_input':
                 return SunshadeTransientNotInput()
             elif d['input'] == 'not_exist':
-                raise SunshadeTransientNotExist()
+                return SunshadeTransientNotExist()
             elif d['input'] == 'simple':
                 return SunshadeTransientExistSimple(depth=d['depth'], d_h=d['d_h'], d_e=d['d_e'])
             elif d['input'] == 'complex':
-                raise SunshadeTransientExistDetail(
+                return SunshadeTransientExistDetail(
                     x1=d['x1'],
                     x2=d['x2'],
                     x3=d['x3'],
@@ -526,18 +524,16 @@ class SunshadeTransientExistDetail(SunshadeTransient):
         return {
             'is_defined': True,
             'input': 'complex',
-            'spec': {
-                'x1': self._sunshade_complex_kernel.x1,
-                'x2': self._sunshade_complex_kernel.x2,
-                'x3': self._sunshade_complex_kernel.x3,
-                'y1': self._sunshade_complex_kernel.y1,
-                'y2': self._sunshade_complex_kernel.y2,
-                'y3': self._sunshade_complex_kernel.y3,
-                'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
-                'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
-                'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
-                'z_y_mns': self._sunshade_complex_kernel.z_y_mns
-            }
+            'x1': self._sunshade_complex_kernel.x1,
+            'x2': self._sunshade_complex_kernel.x2,
+            'x3': self._sunshade_complex_kernel.x3,
+            'y1': self._sunshade_complex_kernel.y1,
+            'y2': self._sunshade_complex_kernel.y2,
+            'y3': self._sunshade_complex_kernel.y3,
+            'z_x_pls': self._sunshade_complex_kernel.z_x_pls,
+            'z_x_mns': self._sunshade_complex_kernel.z_x_mns,
+            'z_y_pls': self._sunshade_complex_kernel.z_y_pls,
+            'z_y_mns': self._sunshade_complex_kernel.z_y_mns
         }
 
     def make_initializer_dict(self):
-- 
2.43.0


From 8a5c4d5209b1e97a8b499fdec173754b3a83de0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:14 +0000
Subject: [PATCH 11/13] fix: accept the specified name 'detailed' for a
 sunshade with detailed geometry

---
 heat_load_calc/initializer/solar_shading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heat_load_calc/initializer/solar_shading.py b/heat_load_calc/initializer/solar_shading.py
index 1966c96..e1c3321 100644
--- a/heat_load_calc/initializer/solar_shading.py
+++ b/heat_load_calc/initializer/solar_shading.py
@@ -54,7 +54,7 @@ class SolarShading:
                     d_e=ssp['d_e']
                 )
 
-            elif input_method == 'detail':
+            elif input_method in ['detail', 'detailed']:
 
                 return SolarShadingDetail(
                     w_alpha=w_alpha_j,
-- 
2.43.0


From de886fb956959ddc191f86a34228c175e175b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 12/13] fix: inner partitions of houses whose rooms add up to
 the total floor area

The remainder left for the non-occupant rooms is a rounding error then: a negative one
became a complex square root and a TypeError, a positive one received half of the
partition floors of the other rooms.
---
 heat_load_calc/convert/convert_lv3_to_lv4.py | 25 ++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/heat_load_calc/convert/convert_lv3_to_lv4.py b/heat_load_calc/convert/convert_lv3_to_lv4.py
index a797509..a171bdc 100644
--- a/heat_load_calc/convert/convert_lv3_to_lv4.py
+++ b/heat_load_calc/convert/convert_lv3_to_lv4.py
@@ -16,6 +16,23 @@ from heat_load_calc.convert.ees_house import HeatResistanceInputMethod
 from heat_load_calc.external.factor_nu import Direction
 
 
+def get_a_nr(a_a: float, a_mr: float, a_or: float) -> float:
+    """
+    Args:
+        a_a: 床面積の合計, m2
+        a_mr: 主たる居室の床面積, m2
+        a_or: その他の居室の床面積, m2
+    Returns:
+        非居室の床面積, m2
+    Notes:
+        非居室がない場合に、差の計算で生じる丸め誤差を非居室の面積とみなさない。
+    """
+
+    a_nr = a_a - a_mr - a_or
+
+    return a_nr if a_nr > a_a * 1.0e-9 else 0.0
+
+
 def get_inner_floor_layers() -> List[Layer]:
     """
     Returns:
@@ -114,7 +131,7 @@ def get_inner_floor_total_area(
 
     a_if_mr = max(0.0, a_mr - a_evlp_down_mr - a_ef_mr)
     a_if_or = max(0.0, a_or - a_evlp_down_or - a_ef_or)
-    a_if_nr = max(0.0, a_a - a_mr - a_or - a_evlp_down_nr - a_ef_nr)
+    a_if_nr = max(0.0, get_a_nr(a_a, a_mr, a_or) - a_evlp_down_nr - a_ef_nr)
 
     return a_if_mr, a_if_or, a_if_nr
 
@@ -170,7 +187,7 @@ def get_inner_floor_between_rooms(
             (6) 床上側が非居室に接し床下側がその他の居室に接する間仕切り床の面積の合計, m2
     """
 
-    a_nr = a_a - a_mr - a_or
+    a_nr = get_a_nr(a_a, a_mr, a_or)
 
     if a_mr <= 0.0:
         raise ValueError('主たる居室の面積に0又は負の値が指定されました。主たる居室は必ず0より大きい値を指定する必要があります。')
@@ -289,7 +306,7 @@ def get_inner_wall_total_area(a_mr, a_or, a_a, a_evlp_hzt_mr, a_evlp_hzt_or, a_e
 
     a_iw_mr = max(0.0, 4 * r_iw_mr * h_iw * a_mr ** 0.5 - a_evlp_hzt_mr)
     a_iw_or = max(0.0, 4 * r_iw_or * h_iw * a_or ** 0.5 - a_evlp_hzt_or)
-    a_iw_nr = max(0.0, 4 * r_iw_nr * h_iw * (a_a - a_mr - a_or) ** 0.5 - a_evlp_hzt_nr)
+    a_iw_nr = max(0.0, 4 * r_iw_nr * h_iw * get_a_nr(a_a, a_mr, a_or) ** 0.5 - a_evlp_hzt_nr)
 
     return a_iw_mr, a_iw_or, a_iw_nr
 
@@ -312,7 +329,7 @@ def get_inner_wall_total_area_between_rooms(
             (3) その他の居室と非居室に接する間仕切り壁の面積の合計, m2
     """
 
-    a_nr = a_a - a_mr - a_or
+    a_nr = get_a_nr(a_a, a_mr, a_or)
 
     if a_mr <= 0.0:
         raise ValueError('主たる居室の面積に0又は負の値が指定されました。主たる居室は必ず0より大きい値を指定する必要があります。')
-- 
2.43.0


From 7d866279aed32bd8add8eca3d93b15e71550f598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:36 +0000
Subject: [PATCH 13/13] fix: an underfloor space has no schedule instead of
 stopping the preparation with a KeyError

---
 heat_load_calc/initializer/schedule_loader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heat_load_calc/initializer/schedule_loader.py b/heat_load_calc/initializer/schedule_loader.py
index 26d5463..c6993a6 100644
--- a/heat_load_calc/initializer/schedule_loader.py
+++ b/heat_load_calc/initializer/schedule_loader.py
@@ -176,6 +176,10 @@ def _get_schedule(
         スケジュール, [365*96]
     """
 
+    # 床下空間にはスケジュールが定義されない（換気・内部発熱・在室者・空調はいずれも無い）。
+    if room_name_i == 'underfloor':
+        return np.zeros(365 * 96)
+
     def convert_schedule(day_type: str):
         return {
             '1': daily_schedule['1'][room_name_i][day_type][schedule_type],
-- 
2.43.0

