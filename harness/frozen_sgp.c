// The orbit model as it was at the pinned commit (with the arithmetic of FMod2p and Modulus that the repair
// introduced), under other names. Oracle for deep-space orbits.
#define _GNU_SOURCE
#include <time.h>
#include <math.h>
#define AcTan fz_AcTan
#define Angle fz_Angle
#define ArcCos fz_ArcCos
#define ArcSin fz_ArcSin
#define Calculate_LatLonAlt fz_Calculate_LatLonAlt
#define Calculate_Obs fz_Calculate_Obs
#define Calculate_RADec_and_Obs fz_Calculate_RADec_and_Obs
#define Calculate_Solar_Position fz_Calculate_Solar_Position
#define Calculate_User_PosVel fz_Calculate_User_PosVel
#define Calendar_Date fz_Calendar_Date
#define Checksum_Good fz_Checksum_Good
#define ClearFlag fz_ClearFlag
#define Convert_Sat_State fz_Convert_Sat_State
#define Convert_Satellite_Data fz_Convert_Satellite_Data
#define Cross fz_Cross
#define Cube fz_Cube
#define DOY fz_DOY
#define Date_Time fz_Date_Time
#define Deep fz_Deep
#define Degrees fz_Degrees
#define Delta_ET fz_Delta_ET
#define Dot fz_Dot
#define Epoch_Time fz_Epoch_Time
#define FMod2p fz_FMod2p
#define Frac fz_Frac
#define Fraction_of_Day fz_Fraction_of_Day
#define Get_Next_Tle_Set fz_Get_Next_Tle_Set
#define Good_Elements fz_Good_Elements
#define Int fz_Int
#define Julian_Date fz_Julian_Date
#define Julian_Date_of_Epoch fz_Julian_Date_of_Epoch
#define Julian_Date_of_Year fz_Julian_Date_of_Year
#define Magnitude fz_Magnitude
#define Modulus fz_Modulus
#define Normalize fz_Normalize
#define Radians fz_Radians
#define Round fz_Round
#define SDP4 fz_SDP4
#define SGP4 fz_SGP4
#define Sat_Eclipsed fz_Sat_Eclipsed
#define Scalar_Multiply fz_Scalar_Multiply
#define Scale_Vector fz_Scale_Vector
#define SetFlag fz_SetFlag
#define Sign fz_Sign
#define Sqr fz_Sqr
#define ThetaG fz_ThetaG
#define ThetaG_JD fz_ThetaG_JD
#define Time_of_Day fz_Time_of_Day
#define UTC_Calendar_Now fz_UTC_Calendar_Now
#define Vec_Add fz_Vec_Add
#define Vec_Sub fz_Vec_Sub
#define isFlagClear fz_isFlagClear
#define isFlagSet fz_isFlagSet
#define select_ephemeris fz_select_ephemeris
#include "frozen/sgp4sdp4.h"
#include "frozen/sgp4sdp4.c"
#include "frozen/sgp_in.c"
#include "frozen/sgp_math.c"
#include "frozen/sgp_obs.c"
#include "frozen/sgp_time.c"

// tle: elements in the units of the element set; out: position km, velocity km/s at each time (minutes since epoch)
int fz_predict(double epoch, const double *el, const double *tsince, int n, double (*out)[6]) {
    sat_t s;
    memset(&s, 0, sizeof(s));
    s.tle.epoch = epoch;
    s.tle.xndt2o = el[0]; s.tle.xndd6o = el[1]; s.tle.bstar = el[2]; s.tle.xincl = el[3]; s.tle.xnodeo = el[4];
    s.tle.eo = el[5] < 1.0e-6 ? 1.0e-6 : el[5]; s.tle.omegao = el[6]; s.tle.xmo = el[7]; s.tle.xno = el[8];
    select_ephemeris(&s);
    for (int i = 0; i < n; i++) {
        if (s.flags & DEEP_SPACE_EPHEM_FLAG) SDP4(&s, tsince[i]); else SGP4(&s, tsince[i]);
        Convert_Sat_State(&s.pos, &s.vel);
        out[i][0] = s.pos.x; out[i][1] = s.pos.y; out[i][2] = s.pos.z;
        out[i][3] = s.vel.x; out[i][4] = s.vel.y; out[i][5] = s.vel.z;
    }
    return (s.flags & DEEP_SPACE_EPHEM_FLAG) != 0;
}
