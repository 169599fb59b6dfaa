"""Which guarantee applies to which technique.  Membership follows the
techniques' own documentation/category tags and was cross-checked by
characterisation runs; it is stated in the properties' text."""
import smote_variants as sv

ALL = [c.__name__ for c in sv.get_all_oversamplers()]

# filter noise / replace or relabel majority / reduce dimensions / rebuild data
FILTERING = ["A_SUWO", "AHC", "AMSCO", "DE_oversampling", "DSMOTE", "E_SMOTE",
             "Gazzah", "IPADE_ID", "ISMOTE", "ISOMAP_Hybrid", "MOT2LD", "NRAS",
             "SMOTE_ENN", "SMOTE_FRST_2T", "SMOTE_IPF", "SMOTE_TomekLinks",
             "SPY", "SUNDO", "SVM_balance", "Stefanowski", "VIS_RST", "NEATER"]
REBUILD = ["ADG", "DSRBF", "KernelADASYN"]
ADDITIVE = [n for n in ALL if n not in FILTERING and n not in REBUILD]

# majority rows of the output are (multiset) majority rows of the input, in order
MAJ_SELECT = ["A_SUWO", "DE_oversampling", "Gazzah", "MOT2LD", "NRAS",
              "SMOTE_ENN", "SMOTE_FRST_2T", "SMOTE_IPF", "SMOTE_TomekLinks",
              "SPY", "SUNDO", "Stefanowski", "VIS_RST"]
MAJ_SELECT_UNORDERED = ["ISMOTE"]
# every original minority row survives with its label
MIN_KEPT = ["AHC", "ISMOTE", "SMOTE_FRST_2T", "SPY", "SUNDO", "Stefanowski",
            "VIS_RST", "NEATER"]
# every majority row survives with its label
MAJ_KEPT = ["NRAS", "NEATER"]
# all rows of the output are rows of the input
ROWS_ONLY = ["SPY", "Stefanowski"]

# additive techniques with a proportion whose generated number has its own
# definition (energy spheres, per-pair quotas, iterations, mesh sizes ...)
COUNT_OTHER = ["CCR", "NDO_sampling", "SMOTE_D", "SMOTE_RSB", "SSO",
               "polynom_fit_SMOTE_star", "polynom_fit_SMOTE_bus",
               "polynom_fit_SMOTE_poly"]
# not additive, but with a definite number of minority samples gained: the
# requested one (dropped noise is replaced) or none / the requested one at most
GAIN_EXACT = ["NRAS", "E_SMOTE", "DSRBF", "KernelADASYN"]
GAIN_AT_MOST = ["A_SUWO", "DSMOTE", "MOT2LD", "SMOTE_ENN", "SMOTE_TomekLinks",
                "SMOTE_IPF"]
# no abort condition besides "minority class has at most two members"
ALWAYS_EXACT = [
    "ADOMS", "CBSO", "DEAGO", "distance_SMOTE", "Edge_Det_SMOTE",
    "Gaussian_SMOTE", "polynom_fit_SMOTE_mesh", "Lee", "LLE_SMOTE",
    "LVQ_SMOTE", "MCT", "MSYN", "NT_SMOTE", "OUPS", "ProWSyn",
    "Random_SMOTE", "ROSE", "RWO_sampling", "SDSMOTE", "Selected_SMOTE",
    "SMOTE_Cosine", "SMOTE_OUT", "SMOTE", "SN_SMOTE", "Supervised_SMOTE",
    "SMOTE_AMSR", "SMOTEWB"]

# generated rows lie in the convex hull of the minority class (no gaussian
# component)
HULL_MIN = [
    "ADASYN", "AND_SMOTE", "ANS", "ASMOBD", "A_SUWO", "Assembled_SMOTE",
    "Borderline_SMOTE1", "CBSO", "CE_SMOTE", "CURE_SMOTE", "DBSMOTE",
    "E_SMOTE", "Edge_Det_SMOTE", "GASMOTE", "G_SMOTE", "Lee", "MCT", "MOT2LD",
    "MSYN", "MWMOTE", "NEATER", "NRSBoundary_SMOTE", "NT_SMOTE", "ProWSyn",
    "SDSMOTE", "SMMO", "SMOTE", "SMOTEWB",
    "SMOTE_D", "SMOTE_ENN", "SMOTE_IPF", "SMOTE_PSOBAT",
    "SMOTE_RSB", "SMOTE_TomekLinks", "SN_SMOTE", "SOMO", "SVM_balance",
    "SYMPROD", "Supervised_SMOTE", "TRIM_SMOTE",
    "cluster_SMOTE", "distance_SMOTE", "kmeans_SMOTE",
    "polynom_fit_SMOTE_bus", "polynom_fit_SMOTE_mesh",
    "polynom_fit_SMOTE_star"]
# generated rows lie in the bounding box of the minority class
BOX_MIN = ["Random_SMOTE", "Selected_SMOTE", "SMOBD", "SMOTE_AMSR"]
# in the hull, but not on a segment between two minority samples by default
_NOT_SEGMENT = ["CURE_SMOTE", "NT_SMOTE", "SMMO", "SYMPROD", "distance_SMOTE",
                "polynom_fit_SMOTE_star"]
SEGMENT = [n for n in HULL_MIN if n not in _NOT_SEGMENT]
# generated rows lie in the bounding box of the whole dataset
BOX_ALL = ["Borderline_SMOTE2", "LN_SMOTE", "MSMOTE", "NDO_sampling", "OUPS",
           "SL_graph_SMOTE", "Safe_Level_SMOTE", "IPADE_ID"]

# by default on a segment from a minority sample to one of its k nearest
# minority neighbours; k is the named parameter
KNN_SEGMENT = {n: "n_neighbors" for n in (
    "ADASYN", "GASMOTE", "Lee", "MSYN", "NRSBoundary_SMOTE", "SDSMOTE",
    "SMOTE", "SMOTE_ENN", "SMOTE_RSB", "SMOTE_TomekLinks", "SVM_balance")}
