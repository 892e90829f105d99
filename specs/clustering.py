"""Clustering of data, one step at a time, and what is asked of the clusters."""
import numpy as np
from diffpy.srmise.dataclusters import DataClusters


def rows(c):
    return [[a, b] for a, b in c.clusters]


def steps(x, y, res):
    """What is there after each step."""
    c = DataClusters(x, y, res)
    out = [rows(c)]
    for s in c:
        out.append([rows(s), s.lastcluster_idx, s.lastpoint_idx])
    return out + [rows(c)]


def whole(x, y, res):
    c = DataClusters(x, y, res)
    c.makeclusters()
    first = rows(c)
    c.reset_clusters()
    again = rows(c)
    c.makeclusters()
    return [first, again, rows(c)]


def made(x, y, res, clusters):
    c = DataClusters(x, y, res)
    c.clusters = np.array(clusters)
    return c


def near(x, y, res, clusters, points):
    c = made(x, y, res, clusters)
    return [[v for v in c.find_nearest_cluster(k)] for k in points]


def nearest(x, y, res, clusters, at):
    return [v for v in made(x, y, res, clusters).find_nearest_cluster2(at)]


def full(x, y, res, clusters):
    c = made(x, y, res, clusters)
    return [c.cluster_is_full(k) for k in range(len(clusters))]


def adjacent(x, y, res, clusters):
    return [[k for k in g] for g in made(x, y, res, clusters).find_adjacent_clusters()]


def combined(x, y, res, clusters, groups):
    c = made(x, y, res, clusters)
    try:
        c.combine_clusters(groups)
    except ValueError:
        return ["refused", rows(c)]
    return rows(c)


def joined(x, y, res, clusters):
    """Adjacent clusters combined."""
    c = made(x, y, res, clusters)
    c.combine_clusters(c.find_adjacent_clusters())
    return rows(c)


def cuts(x, y, res, clusters):
    c = made(x, y, res, clusters)
    return [[v for v in x[c.cut(k)]] for k in range(len(clusters))]


def edges(x, y, res, clusters):
    return [[a, b] for a, b in made(x, y, res, clusters).cluster_boundaries()]


def refused(x, y, res):
    try:
        DataClusters(x, y, res)
    except ValueError:
        return "refused"
    return "accepted"
