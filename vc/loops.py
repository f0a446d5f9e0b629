"""runtime of loop contracts"""
